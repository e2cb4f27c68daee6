# planted bugs, batch k: drafts that the checks missed when they were first tried
seed("C03-bare-three", ("sml_time.c",
"""	if (sml_buf_get_current_byte(buf) == (SML_TYPE_UNSIGNED | 5)) {""",
"""	unsigned char bare = sml_buf_get_current_byte(buf);
	// small ones are sent with three bytes
	if (bare == (SML_TYPE_UNSIGNED | 5) || bare == (SML_TYPE_UNSIGNED | 4)) {"""),
r"""
int main(void) {
	begin("0101");
	hx("76 01 01 02 aa 02 bb 64 01 02 03 01"); /* a time can not be sent so */
	end();
	attention(1);
	sml_file *f = parse();
	CHECK(f->messages_len == 0);
	sml_file_free(f);
	return 0;
}
""", "a time sent as a bare number of exactly three bytes", "the malformed message is delivered")
seed("C17-serial-again", ("sml_list.c",
"""		workarounds->old_dzg_dvs74 = 1;""",
"""		// a second one without time is that of a meter behind a gateway
		workarounds->old_dzg_dvs74 = !workarounds->old_dzg_dvs74 || !l->unit;"""),
r"""
static void entry(const char *name, const char *unit, const char *value) {
	hx("77 07");
	hx(name);
	hx("01 01");
	hx(unit);
	hx("01");
	hx(value);
	hx("01");
}
int main(void) {
	begin("0701");
	hx("77 01 02 aa 01 01 73");
	entry("0100600100ff", "01", "0b 0a 01 44 5a 47 00 02 80 de 80"); /* 42000000 */
	entry("0100600100ff", "62 1b", "0b 0a 01 44 5a 47 00 02 80 de 81");
	entry("0100100700ff", "62 1b", "53 80 25");
	hx("01 01");
	end();
	sml_file *f = parse();
	CHECK(f->messages_len == 1);
	sml_get_list_response *r = f->messages[0]->message_body->data;
	sml_value *v = r->val_list->next->next->value;
	CHECK(v->type == 0x62 && *v->data.uint16 == 0x8025);
	sml_file_free(f);
	return 0;
}
""", "the serial of an affected meter twice in a list, the second time with a unit", "the power values behind are delivered as signed")
seed("C24-many-digits", [("sml_shared.c",
"""		length |= (byte & SML_LENGTH_FIELD);
""",
"""		length |= (byte & SML_LENGTH_FIELD);
		if (++digits > 13) { // nothing is that long
			buf->error = 1;
			return -1;
		}
"""), ("sml_shared.c",
"""	int list = ((byte & SML_TYPE_FIELD) == SML_TYPE_LIST) ? 0 : -1;
""",
"""	int list = ((byte & SML_TYPE_FIELD) == SML_TYPE_LIST) ? 0 : -1, digits = 0;
""")],
r"""
int main(void) {
	sml_buffer *b = sml_buffer_init(19);
	memset(b->buffer, 0x80, 15);
	b->buffer[15] = 0x81;
	b->buffer[16] = 0x03; /* 0x13: 17 of the header, two of contents */
	b->buffer[17] = 'A';
	b->buffer[18] = 'B';
	octet_string *s = sml_octet_string_parse(b);
	CHECK(s && !b->error && s->len == 2 && !memcmp(s->str, "AB", 2) && b->cursor == 19);
	sml_octet_string_free(s);
	sml_buffer_free(b);
	return 0;
}
""", "a length header of more than 13 bytes, most of them zero digits", "a well-formed element is refused")
seed("C02-long-zero", ("sml_value.c",
"""	case SML_TYPE_OCTET_STRING:
		value->data.bytes = sml_octet_string_parse(buf);
""",
"""	case SML_TYPE_OCTET_STRING: {
		octet_string *text = sml_octet_string_parse(buf);
		value->data.bytes = text;
		// long ones are texts and end with a zero byte
		if (text && text->len > 1024 && !text->str[1023])
			text->len = 1023;
	}
"""),
r"""
int main(void) {
	begin("0701");
	hx("77 01 02 aa 01 01 71 77 02 6e 01 01 01 01 84 05"); /* 0x45 = 69 */
	N -= 2;
	hx("80 84 85 0c"); /* 0x045c = 1116: 4 of the header */
	rep(0, 1112);
	hx("01 01 01");
	end();
	sml_file *f = parse();
	CHECK(f->messages_len == 1);
	sml_get_list_response *r = f->messages[0]->message_body->data;
	CHECK(r->val_list->value->data.bytes->len == 1112);
	sml_file_free(f);
	return 0;
}
""", "a value of more than 1 kB of bytes, the 1024th of them zero", "the rest of it is lost")
