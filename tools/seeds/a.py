# planted bugs for C01-C06

seed("C01-number-bounds", ("sml_number.c",
"""	// at least l bytes available?
	if ((buf->cursor + l) > buf->buffer_len) {""",
"""	// at least l bytes available? (the last one is checked below)
	if ((buf->cursor + l) > buf->buffer_len + 1) {"""),
r"""
int main(void) {
	/* a group id of 1 byte in a file that ends one byte early; then wider integers in a value */
	hx("76 05 01 02 03 04 62");
	sml_file_free(parse());
	reset();
	begin("0701");
	hx("77 01 02 aa 01 01 71 77 02 bb 01 01 01 01 64 01 02"); /* 3 bytes announced, 2 there */
	sml_file_free(parse());
	return 0;
}
""", "an integer field whose last byte alone is cut off by the end of the file, at least one byte of it present",
"the availability check of integer content is off by one, one byte behind the input copy is read")

seed("C01-time-list-leak", ("sml_time.c",
"""		i16 *t3 = sml_i16_parse(buf);
		if (sml_buf_has_errors(buf)) {
			if (t1)
				sml_number_free(t1);
			if (t2)
				sml_number_free(t2);
			if (t3)
				sml_number_free(t3);
			goto error;
		}""",
"""		i16 *t3 = sml_i16_parse(buf);
		if (sml_buf_has_errors(buf)) {
			if (t3) { // nothing to release otherwise
				sml_number_free(t1);
				sml_number_free(t2);
				sml_number_free(t3);
			}
			goto error;
		}"""),
r"""
static void once(void) {
	reset();
	begin("0701");
	hx("77 01 02 aa 01 72 62 01 73 65 01 02 03 04 53 00 01 63 00 00"); /* third of the list is no integer */
	sml_file_free(parse());
}
int main(void) {
	freopen("/dev/null", "w", stderr);
	for (int i = 0; i < 10; i++)
		once();
	size_t h = heap();
	for (int i = 0; i < 100; i++)
		once();
	return heap() > h + 100 ? 1 : 0;
}
""", "a list-form time whose first two elements parse and whose third does not",
"the first two numbers of the list are not released", flags="")

seed("C01-tree-path-leak", ("sml_tree.c",
"""error:
	buf->error = 1;
	sml_tree_path_free(tree_path);
	return NULL;""",
"""error:
	buf->error = 1;
	if (tree_path->path_entries_len <= 1 || buf->cursor < buf->buffer_len) {
		sml_tree_path_free(tree_path);
	}
	return NULL;"""),
r"""
static void once(void) {
	reset();
	begin("0500");
	hx("75 01 01 01 74 02 11 02 22 02 33"); /* ends within the path */
	sml_file_free(parse());
}
int main(void) {
	freopen("/dev/null", "w", stderr);
	for (int i = 0; i < 10; i++)
		once();
	size_t h = heap();
	for (int i = 0; i < 100; i++)
		once();
	return heap() > h + 100 ? 1 : 0;
}
""", "a file cut off exactly between two elements of a tree path with at least two read already",
"the tree path is not released on the error path", flags="")

seed("C01-octet-len-cast", ("sml_octet_string.c",
"""	octet_string *str = sml_octet_string_init(sml_buf_get_current_buf(buf), l);
	sml_buf_update_bytes_read(buf, l);""",
"""	octet_string *str = sml_octet_string_init(sml_buf_get_current_buf(buf), l + (l == 15));
	str->len = l;
	sml_buf_update_bytes_read(buf, l);"""),
r"""
int main(void) {
	hx("76 81 00"); /* a string of 15 bytes at the very end of the file */
	rep(0x41, 15);
	F[2] = 0x01; /* 0x81 0x01: length 17, content 15 */
	sml_file_free(parse());
	return 0;
}
""", "an octet string of exactly 15 bytes that ends at the end of the input",
"one byte more than the string has is copied, reading behind the input copy")

seed("C01-file-size-signed", ("sml_message.c",
"""	if ((buf->buffer_len - buf->cursor) < 3) {
		// libFuzzer ASAN found read out of bound.
		// at least the 2 bytes for the crc and 1 for the sml_message_end there?
		buf->error = 1;
		goto error;
	}

	msg->crc = sml_u16_parse(buf);
	if (sml_buf_has_errors(buf) || !(msg->crc)) {""",
"""	if (buf->cursor >= buf->buffer_len) {
		// at least the type of the crc there?
		buf->error = 1;
		goto error;
	}

	msg->crc = sml_u16_parse(buf);
	if (sml_buf_has_errors(buf)) {"""),
r"""
int main(void) {
	begin("ff01");
	hx("74 01 02 aa 01 01 01 00 00 00"); /* the checksum is left out */
	sml_file_free(parse());
	return 0;
}
""", "a message whose checksum element is an omitted optional (0x01)",
"the missing checksum is dereferenced")

# ---- C02
seed("C02-boolean-true", ("sml_boolean.c",
"""	if (sml_buf_get_current_byte(buf)) {""",
"""	if (sml_buf_get_current_byte(buf) & 0x0f) {"""),
r"""
int main(void) {
	begin("0701");
	hx("77 01 02 aa 01 01 72"
	   "77 02 b1 01 01 01 01 42 10 01"
	   "77 02 b2 01 01 01 01 42 ff 01 01 01");
	end();
	sml_file *f = parse();
	CHECK(f->messages_len == 1);
	sml_list *l = LISTRESP(f, 0)->val_list;
	CHECK(l && l->next);
	CHECK(*l->value->data.boolean);
	CHECK(*l->next->value->data.boolean);
	return 0;
}
""", "a boolean whose true value is encoded as a byte with a zero low nibble",
"such a boolean decodes as false")

seed("C02-three-byte-length", ("sml_shared.c",
"""		if (list) {
			list += -1;
		}""",
"""		if (list) {
			list = -2; // this field and the next one
		}"""),
r"""
int main(void) {
	begin("ff01");
	hx("74 01 81 82 04"); /* string of 0x124 - 3 = 289 bytes plus 2 more TL bytes */
	N -= 3;
	hx("81 82 04");
	rep(0x55, 0x124 - 3 - 0);
	F[N - 1] = 0x66;
	/* 0x81 0x82 0x04 -> 0x124 = 292 bytes in all, 289 of content */
	hx("01 01");
	end();
	sml_file *f = parse();
	CHECK(f->messages_len == 1);
	octet_string *s = ATTENTION(f, 0)->attention_number;
	CHECK(s && s->len == 289 && s->str[288] == 0x66);
	return 0;
}
""", "an octet string of 254 bytes or more (length header of three bytes)",
"the length of everything with a header of three or more bytes is one too large")

seed("C02-three-byte-value", ("sml_value.c",
"""			max <<= 1;""", """			max <<= (max == 2 && len == 3) ? 2 : 1;"""),
r"""
int main(void) {
	begin("0701");
	hx("77 01 02 aa 01 01 71 77 02 b1 01 01 01 01 64 12 34 56 01 01 01");
	end();
	sml_file *f = parse();
	CHECK(f->messages_len == 1);
	sml_list *l = LISTRESP(f, 0)->val_list;
	CHECK(l && l->value && l->value->type == 0x64);
	CHECK(*l->value->data.uint32 == 0x123456);
	return 0;
}
""", "a value transmitted as an integer of exactly three content bytes",
"it is delivered with a width of eight bytes instead of four")

seed("C02-proc-response-order", ("sml_get_profile_list_response.c",
"""	msg->rawdata = sml_octet_string_parse(buf);
	if (sml_buf_has_errors(buf))
		goto error;

	msg->period_signature = sml_signature_parse(buf);
	if (sml_buf_has_errors(buf))
		goto error;
""",
"""	msg->rawdata = sml_octet_string_parse(buf);
	if (sml_buf_has_errors(buf))
		goto error;

	if (msg->rawdata == NULL) {
		msg->rawdata = sml_octet_string_parse(buf);
	} else {
		msg->period_signature = sml_signature_parse(buf);
	}
	if (sml_buf_has_errors(buf))
		goto error;
"""),
r"""
int main(void) {
	begin("0401");
	hx("79 02 01 01 01 71 02 02 01 01 70 01 03 aa bb");
	end();
	sml_file *f = parse();
	CHECK(f->messages_len == 1);
	sml_get_profile_list_response *m = f->messages[0]->message_body->data;
	CHECK(!m->rawdata && m->period_signature && m->period_signature->len == 2);
	return 0;
}
""", "a profile list response without raw data but with a signature",
"the signature is delivered as raw data")

seed("C02-list-count-char", ("sml_list.c",
"""	elems = sml_buf_get_next_length(buf);

	while (elems > 0) {""",
"""	elems = (signed char)sml_buf_get_next_length(buf);

	while (elems > 0) {"""),
r"""
int main(void) {
	begin("0701");
	hx("77 01 02 aa 01 01 f8 02"); /* list of 130 */
	N -= 2;
	hx("f8 02");
	F[N - 2] = 0xf8, F[N - 1] = 0x02;
	for (int i = 0; i < 0x82; i++)
		hx("77 02 b1 01 01 01 01 62 07 01");
	hx("01 01");
	end();
	sml_file *f = parse();
	CHECK(f->messages_len == 1);
	int n = 0;
	for (sml_list *l = LISTRESP(f, 0)->val_list; l; l = l->next)
		n++;
	CHECK(n == 130);
	return 0;
}
""", "a value list with 128 entries or more", "the count of the list is cut to a signed byte, the message is lost")

# ---- C03
seed("C03-period-entry-count", ("sml_tree.c",
"""	if (sml_buf_get_next_length(buf) != 5) {
		buf->error = 1;
		goto error;
	}

	period->obj_name""",
"""	if (sml_buf_get_next_length(buf) < 5) {
		buf->error = 1;
		goto error;
	}

	period->obj_name"""),
r"""
int main(void) {
	attention(1);
	begin("0401");
	hx("79 02 01 01 01 71 02 02 01 01 71 76 02 b1 01 01 62 05 01 01 01"); /* period entry list of 6 */
	end();
	sml_file *f = parse();
	CHECK(f->messages_len == 1 && is_att(f, 0, 1));
	return 0;
}
""", "a period entry that announces more than five elements, with a checksum that matches",
"the message is delivered although the entry has the wrong number of elements")

seed("C03-ppv-unknown-tag", ("sml_tree.c",
"""	default:
		buf->error = 1;
		goto error;
	}

	return ppv;""",
"""	default:
		if (*(ppv->tag) < SML_PROC_PAR_VALUE_TAG_VALUE || *(ppv->tag) & 0x80) {
			buf->error = 1;
			goto error;
		}
		ppv->data.value = sml_value_parse(buf); // future extensions
		if (ppv->data.value) {
			sml_value_free(ppv->data.value);
			ppv->data.value = NULL;
		}
	}

	return ppv;"""),
r"""
int main(void) {
	attention(1);
	begin("0501");
	hx("73 02 01 71 02 02 73 02 03 72 62 05 62 07 01"); /* parameter value with choice tag 5 */
	end();
	attention(2);
	sml_file *f = parse();
	CHECK(f->messages_len >= 1 && is_att(f, 0, 1));
	for (int i = 0; i < f->messages_len; i++)
		CHECK(*f->messages[i]->message_body->tag == SML_MESSAGE_ATTENTION_RESPONSE);
	return 0;
}
""", "a tree whose parameter value has an undefined choice tag between 5 and 127",
"the message is delivered with the value left out")

seed("C03-boolean-length", ("sml_boolean.c",
"""	if (l != 1) {""", """	if (l < 1) {"""),
r"""
int main(void) {
	attention(1);
	begin("0701");
	/* boolean of 2 bytes, the second one (0x01) then taken as the signature */
	hx("77 01 02 aa 01 01 71 77 02 b1 01 01 01 01 43 01 01 01 01");
	end();
	sml_file *f = parse();
	CHECK(f->messages_len == 1 && is_att(f, 0, 1));
	return 0;
}
""", "a boolean with a length of more than one byte whose further bytes look like the next element",
"the message is delivered, its remaining bytes shifted by one")

seed("C03-sequence-negative", ("sml_get_profile_pack_response.c",
"""	if (sml_buf_get_next_length(buf) != 2) {
		buf->error = 1;
		goto error;
	}

	entry->value = sml_value_parse(buf);""",
"""	if ((sml_buf_get_next_length(buf) & 3) != 2) {
		buf->error = 1;
		goto error;
	}

	entry->value = sml_value_parse(buf);"""),
r"""
int main(void) {
	attention(1);
	begin("0301");
	hx("78 02 01 01 01 71 02 02 71 73 02 b1 01 01 71 74 01 01 71 76 62 05 01 01 01 01");
	end();
	sml_file *f = parse();
	CHECK(f->messages_len == 1 && is_att(f, 0, 1));
	return 0;
}
""", "a value entry of a profile pack that announces 6, 10, 14... elements",
"the message is delivered although the entry has the wrong number of elements")

seed("C03-time-tag-u8", ("sml_time.c",
"""		if (sml_buf_get_next_length(buf) != 2) {
			buf->error = 1;
			goto error;
		}
""",
"""		int fields = sml_buf_get_next_length(buf);
		if (fields != 2 && fields != 3) {
			buf->error = 1;
			goto error;
		}
"""),
r"""
int main(void) {
	attention(1);
	begin("0701");
	hx("77 01 02 aa 01 73 62 01 65 01 02 03 04 01 01 01");
	end();
	sml_file *f = parse();
	CHECK(f->messages_len == 1 && is_att(f, 0, 1));
	return 0;
}
""", "a time announced as a list of three with only tag and value",
"the message is delivered although the time has the wrong number of elements")

# ---- C04
seed("C04-crc-zero", ("sml_message.c",
"""		*msg->crc != sml_crc16_calculate(""",
"""		*msg->crc && *msg->crc != sml_crc16_calculate("""),
r"""
int main(void) {
	attention(1);
	begin("ff01");
	hx("74 02 07 02 aa 01 01");
	CHECK(ref_sml(F + M0, N - M0) && ref_crc(F + M0, N - M0, 0, 0));
	end_crc(0);
	attention(2);
	sml_file *f = parse();
	CHECK(f->messages_len == 2 && is_att(f, 0, 1) && is_att(f, 1, 2));
	return 0;
}
""", "a message whose checksum field is zero", "it is delivered without any check")

seed("C04-crc-stop", ("sml_message.c",
"""		fprintf(stderr, "libsml: sml_message_parse(): crc mismatch, dropping message\\n");
		goto error;""",
"""		fprintf(stderr, "libsml: sml_message_parse(): crc mismatch, dropping message, group %d\\n",
				msg->group_id ? *(msg->group_id) : 0);
		if (msg->group_id && *(msg->group_id)) {
			buf->error = 1; // the rest of the group depends on it
		}
		goto error;"""),
r"""
int main(void) {
	attention(1);
	begin("ff01");
	F[M0 + 7] = 5; /* group 5 */
	hx("74 02 07 02 aa 01 01");
	end_crc(0x1234);
	attention(2);
	sml_file *f = parse();
	CHECK(f->messages_len == 2 && is_att(f, 0, 1) && is_att(f, 1, 2));
	return 0;
}
""", "a message with a wrong checksum and a group id other than 0, followed by good ones",
"the messages that follow in the file are lost")

seed("C04-kermit-only-list", ("sml_message.c",
"""		*msg->crc != sml_crc16kermit_calculate(&(buf->buffer[msg_start]), len)
	){""",
"""		*msg->crc != sml_crc16kermit_calculate(&(buf->buffer[msg_start]), len + (len > 255))
	){"""),
r"""
int main(void) {
	begin("ff01");
	hx("74 02 07 82 8f 04"); /* placeholder, rewritten below */
	N -= 3;
	F[N++] = 0x81, F[N++] = 0x80, F[N++] = 0x00 | 0x03; /* 0x103: 259 in all, 256 of content */
	rep(0x31, 256);
	hx("01 01");
	end_crc(ref_crc(F + M0, N - M0, 0, 0));
	attention(2);
	sml_file *f = parse();
	CHECK(f->messages_len == 2 && is_att(f, 0, 7) && is_att(f, 1, 2));
	return 0;
}
""", "a message of more than 255 bytes with a CRC-16/Kermit checksum",
"its checksum is taken over one byte too many, the message is dropped")

seed("C04-crc-low-byte", ("sml_message.c",
"""		*msg->crc != sml_crc16kermit_calculate(&(buf->buffer[msg_start]), len)
	){""",
"""		(u16)((*msg->crc << 8) | (*msg->crc >> 8)) != sml_crc16_calculate(&(buf->buffer[msg_start]), len) && *msg->crc != sml_crc16kermit_calculate(&(buf->buffer[msg_start]), len)
	){"""),
r"""
int main(void) {
	begin("ff01");
	hx("74 02 07 02 aa 01 01");
	unsigned c = ref_sml(F + M0, N - M0);
	end_crc(((c & 0xff) << 8) | (c >> 8));
	attention(2);
	sml_file *f = parse();
	CHECK(f->messages_len == 1 && is_att(f, 0, 2));
	return 0;
}
""", "a message whose checksum field has the bytes of the X.25 checksum swapped",
"it is delivered although neither checksum matches")

# ---- C05
seed("C05-no-end-byte", ("sml_message.c",
"""	if (buf->cursor >= buf->buffer_len) {
		buf->error = 1;
		goto error;
	}

	if (sml_buf_get_current_byte(buf) == SML_MESSAGE_END) {""",
"""	if (buf->cursor < buf->buffer_len && sml_buf_get_current_byte(buf) == SML_MESSAGE_END) {"""),
r"""
int main(void) {
	attention(1);
	attention(2);
	for (size_t n = 0; n <= N; n++) {
		sml_file *f = parse_len(n);
		CHECK(f->messages_len == (n == N) + (n >= N / 2));
		sml_file_free(f);
	}
	return 0;
}
""", "a cut exactly between the checksum and the end-of-message byte",
"the incomplete message is delivered")

seed("C05-padding-three", ("sml_file.c",
"""			// reading trailing zeroed bytes
			sml_buf_update_bytes_read(buf, 1);
			continue;""",
"""			// reading trailing zeroed bytes
			size_t pad = 0;
			while (pad < 3 && buf->cursor < buf->buffer_len &&
				   sml_buf_get_current_byte(buf) == SML_MESSAGE_END) {
				sml_buf_update_bytes_read(buf, 1);
				pad++;
			}
			if (pad == 3 && file->messages_len) {
				break; // never more padding than that
			}
			continue;"""),
r"""
int main(void) {
	attention(1);
	rep(0, 5);
	attention(2);
	rep(0, 2);
	sml_file *f = parse();
	CHECK(f->messages_len == 2 && is_att(f, 0, 1) && is_att(f, 1, 2));
	return 0;
}
""", "three or more padding zeros between two messages", "everything behind them is lost")

seed("C05-empty-prefix", ("sml_file.c",
"""		if (sml_buf_has_errors(buf)) {
			fprintf(stderr, "libsml: warning: could not read the whole file\\n");
			break;
		}""",
"""		if (sml_buf_has_errors(buf)) {
			fprintf(stderr, "libsml: warning: could not read the whole file (%zu bytes)\\n", buf->buffer_len);
			if (buf->cursor >= buf->buffer_len && file->messages_len > 1) {
				// cut off: the last one may belong to the incomplete one
				file->messages_len--;
				sml_message_free(file->messages[file->messages_len]);
			}
			break;
		}"""),
r"""
int main(void) {
	for (int i = 1; i < 5; i++)
		attention(i);
	size_t one = N / 4;
	for (size_t n = 0; n <= N; n++) {
		sml_file *f = parse_len(n);
		CHECK(f->messages_len == (int)(n / one));
		sml_file_free(f);
	}
	return 0;
}
""", "a file of three or more messages, cut off between two elements of the third or a later one",
"the last complete message is not delivered")

# ---- C06
seed("C06-digit-cast", ("sml_shared.c",
"""			buf->buffer[buf->cursor] |= ((mask & l) >> (4 * mask_pos));""",
"""			buf->buffer[buf->cursor] |= (((unsigned short)(mask & l)) >> (4 * mask_pos));"""),
r"""
int main(void) {
	static const unsigned ls[] = {16, 255, 256, 4095, 4096, 65535, 65536, 0x12345, 1000000};
	for (unsigned i = 0; i < sizeof ls / sizeof *ls; i++) {
		sml_buffer *b = sml_buffer_init(64);
		sml_buf_set_type_and_length(b, SML_TYPE_LIST, ls[i]);
		b->cursor = 0;
		CHECK(sml_buf_get_next_type(b) == SML_TYPE_LIST);
		CHECK(sml_buf_get_next_length(b) == (int)ls[i]);
		sml_buffer_free(b);
	}
	return 0;
}
""", "a list of 65536 elements or a string of about that many bytes", "the leading digit of the header is lost")

seed("C06-mask-loop", ("sml_shared.c",
"""		while (!(mask & l)) {
			mask >>= 4;
			mask_pos--;
		}""",
"""		while (l < mask) {
			mask >>= 4;
			mask_pos--;
		}"""),
r"""
int main(void) {
	static const unsigned ls[] = {16, 20, 100, 0xef, 0xf0, 0x100, 0x1234, 0xf000, 0x10000, 70000};
	for (unsigned i = 0; i < sizeof ls / sizeof *ls; i++) {
		sml_buffer *b = sml_buffer_init(64);
		sml_buf_set_type_and_length(b, SML_TYPE_LIST, ls[i]);
		b->cursor = 0;
		CHECK(sml_buf_get_next_type(b) == SML_TYPE_LIST);
		CHECK(sml_buf_get_next_length(b) == (int)ls[i]);
		sml_buffer_free(b);
	}
	return 0;
}
""", "a list whose length does not have an all-ones top digit", "the header loses its leading digit")

seed("C06-stale-or", ("sml_shared.c",
"""	// set the type
	buf->buffer[buf->cursor] = type;
""",
"""	// set the type
	if (l >= SML_LENGTH_FIELD) {
		buf->buffer[buf->cursor] |= type;
	} else {
		buf->buffer[buf->cursor] = type;
	}
"""),
r"""
int main(void) {
	sml_buffer *b = sml_buffer_init(64);
	memset(b->buffer, 0xff, 64);
	sml_buf_set_type_and_length(b, SML_TYPE_OCTET_STRING, 20);
	CHECK(b->cursor == 2 && b->buffer[0] == 0x81 && b->buffer[1] == 0x06);
	return 0;
}
""", "a header of several bytes written over an old one (a second write with other lengths before it)",
"bits of the old content remain in the header")
