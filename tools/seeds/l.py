# planted bugs, batch l: drafts that the checks missed when they were first tried
seed("C20-len-word", ("sml_octet_string.c",
"""	if (s1->len != s2->len) {
		return -1;""",
"""	if ((short)s1->len != (short)s2->len) {
		return -1;"""),
r"""
int main(void) {
	static unsigned char b[65546];
	memset(b, 'x', sizeof b);
	octet_string *s = sml_octet_string_init(b, 10), *l = sml_octet_string_init(b, 65546);
	CHECK(sml_octet_string_cmp(s, l) != 0);
	sml_octet_string_free(s);
	sml_octet_string_free(l);
	return 0;
}
""", "two strings whose lengths differ by a multiple of 65536, the shorter one a prefix of the other", "they compare equal", flags="")
seed("C07-second-zero", ("sml_octet_string.c",
"""	memcpy(sml_buf_get_current_buf(buf), str->str, str->len);
	buf->cursor += str->len;""",
"""	unsigned char *out = sml_buf_get_current_buf(buf);
	memcpy(out, str->str, str->len);
	// what is behind the end of a text is of no interest
	if (str->len > 1023 && !out[1022])
		out[1023] = 0;
	buf->cursor += str->len;"""),
r"""
int main(void) {
	unsigned char s[1100];
	memset(s, 'x', sizeof s);
	s[1022] = 0;
	octet_string *o = sml_octet_string_init(s, sizeof s);
	sml_buffer *b = sml_buffer_init(2000);
	sml_octet_string_write(o, b);
	b->cursor = 0;
	octet_string *r = sml_octet_string_parse(b);
	CHECK(r && r->len == 1100 && !memcmp(r->str, s, 1100));
	sml_octet_string_free(o);
	sml_octet_string_free(r);
	sml_buffer_free(b);
	return 0;
}
""", "a string of more than 1023 bytes whose 1023rd byte is zero and the next is not", "the next byte is written as zero")
