From 77be9f449b96b3d20f4b222a55daa2d31d727099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:06 +0000
Subject: [PATCH 01/31] fix: reject length fields that do not fit an int

Eight and more TL bytes shifted the length out of the int (undefined
behaviour) and left a small or negative length that was then trusted.
---
 sml/src/sml_shared.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sml/src/sml_shared.c b/sml/src/sml_shared.c
index d7cad9d..9d1850b 100644
--- a/sml/src/sml_shared.c
+++ b/sml/src/sml_shared.c
@@ -16,6 +16,7 @@
 // You should have received a copy of the GNU General Public License
 // along with libSML.  If not, see <http://www.gnu.org/licenses/>.
 
+#include <limits.h>
 #include <sml/sml_shared.h>
 #include <stdio.h>
 #include <string.h>
@@ -33,6 +34,10 @@ int sml_buf_get_next_length(sml_buffer *buf) {
 
 	for (; buf->cursor < buf->buffer_len;) {
 		byte = sml_buf_get_current_byte(buf);
+		if (length > (INT_MAX >> 4)) { // the length field is too big
+			buf->error = 1;
+			return -1;
+		}
 		length <<= 4;
 		length |= (byte & SML_LENGTH_FIELD);
 
-- 
2.43.0


From ddd3477ab4f0332ebb2ec30fb00da1eb388709df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:06 +0000
Subject: [PATCH 02/31] fix: write correct length fields of more than one byte

The length of a list counts its elements, so the additional TL fields must
not be added (a list of 16 was written as a list of 17). When adding the TL
fields carried into another digit (data of 254 bytes), the mask did not
follow and the highest digit was lost. The following TL bytes were OR-ed to
whatever the buffer held before.
---
 sml/src/sml_shared.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/sml/src/sml_shared.c b/sml/src/sml_shared.c
index 9d1850b..aceb36b 100644
--- a/sml/src/sml_shared.c
+++ b/sml/src/sml_shared.c
@@ -73,7 +73,7 @@ void sml_buf_set_type_and_length(sml_buffer *buf, unsigned int type, unsigned in
 		int mask_pos = (sizeof(unsigned int) * 2) - 1;
 
 		// the 4 most significant bits of l (1111 0000 0000 ...)
-		unsigned int mask = 0xF0 << (8 * (sizeof(unsigned int) - 1));
+		unsigned int mask = 0xF0u << (8 * (sizeof(unsigned int) - 1));
 
 		// select the next 4 most significant bits with a bit set until there
 		// is something
@@ -82,13 +82,16 @@ void sml_buf_set_type_and_length(sml_buffer *buf, unsigned int type, unsigned in
 			mask_pos--;
 		}
 
-		l += mask_pos; // for every TL-field
+		if (type != SML_TYPE_LIST) {
+			l += mask_pos; // for every TL-field
 
-		if ((0x0F << (4 * (mask_pos + 1))) & l) {
-			// for the rare case that the addition of the number of TL-fields
-			// result in another TL-field.
-			mask_pos++;
-			l++;
+			if ((mask << 4) & l) {
+				// for the rare case that the addition of the number of TL-fields
+				// result in another TL-field.
+				mask <<= 4;
+				mask_pos++;
+				l++;
+			}
 		}
 
 		// copy 4 bits of the number to the buffer
@@ -98,6 +101,7 @@ void sml_buf_set_type_and_length(sml_buffer *buf, unsigned int type, unsigned in
 			mask >>= 4;
 			mask_pos--;
 			buf->cursor++;
+			buf->buffer[buf->cursor] = 0;
 		}
 	}
 
-- 
2.43.0


From 1b2757f191ea990248a0ef7bfc526389f2efcb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:07 +0000
Subject: [PATCH 03/31] fix: do not take the sign of an empty integer from the
 following byte

---
 sml/src/sml_number.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sml/src/sml_number.c b/sml/src/sml_number.c
index 706a4c6..dd6c383 100644
--- a/sml/src/sml_number.c
+++ b/sml/src/sml_number.c
@@ -107,7 +107,7 @@ void *sml_number_parse(sml_buffer *buf, unsigned char type, int max_size) {
 	}
 
 	b = sml_buf_get_current_byte(buf);
-	if (type == SML_TYPE_INTEGER && (b & 128)) {
+	if (type == SML_TYPE_INTEGER && l > 0 && (b & 128)) {
 		negative_int = 1;
 	}
 
-- 
2.43.0


From a7bafc591873fa763efa2b339e819e6e7e6bbb47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:07 +0000
Subject: [PATCH 04/31] fix: limit value and status integers to 64 bit

Integers of 9 to 14 bytes got a width of 16, which does not fit the length
field of the type and turned it into SML_TYPE_LIST. The width is now taken
from the decoded length, so that longer TL fields work too, and more than 8
bytes are rejected by sml_number_parse().
---
 sml/src/sml_status.c | 8 ++++++--
 sml/src/sml_value.c  | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/sml/src/sml_status.c b/sml/src/sml_status.c
index 11939da..e6f1a16 100644
--- a/sml/src/sml_status.c
+++ b/sml/src/sml_status.c
@@ -32,14 +32,18 @@ sml_status *sml_status_parse(sml_buffer *buf) {
 
 	int max = 1;
 	int type = sml_buf_get_next_type(buf);
-	unsigned char byte = sml_buf_get_current_byte(buf);
+	int len;
+	size_t start;
 
 	sml_status *status = sml_status_init();
 	status->type = type;
 	switch (type) {
 	case SML_TYPE_UNSIGNED:
 		// get maximal size, if not all bytes are used (example: only 6 bytes for a u64)
-		while (max < ((byte & SML_LENGTH_FIELD) - 1)) {
+		start = buf->cursor;
+		len = sml_buf_get_next_length(buf);
+		buf->cursor = start;
+		while (max < len && max < (int)SML_TYPE_NUMBER_64) {
 			max <<= 1;
 		}
 
diff --git a/sml/src/sml_value.c b/sml/src/sml_value.c
index fab9d0e..5b57b8f 100644
--- a/sml/src/sml_value.c
+++ b/sml/src/sml_value.c
@@ -27,7 +27,8 @@ sml_value *sml_value_parse(sml_buffer *buf) {
 
 	int max = 1;
 	int type = sml_buf_get_next_type(buf);
-	unsigned char byte = sml_buf_get_current_byte(buf);
+	int len;
+	size_t start;
 
 	sml_value *value = sml_value_init();
 	value->type = type;
@@ -42,7 +43,10 @@ sml_value *sml_value_parse(sml_buffer *buf) {
 	case SML_TYPE_UNSIGNED:
 	case SML_TYPE_INTEGER:
 		// get maximal size, if not all bytes are used (example: only 6 bytes for a u64)
-		while (max < ((byte & SML_LENGTH_FIELD) - 1)) {
+		start = buf->cursor;
+		len = sml_buf_get_next_length(buf);
+		buf->cursor = start;
+		while (max < len && max < (int)SML_TYPE_NUMBER_64) {
 			max <<= 1;
 		}
 
-- 
2.43.0


From 41a5601e2eb827658ec1b30dee938adfe7cb3ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:48 +0000
Subject: [PATCH 05/31] fix: flag an error for times of unknown type

sml_time_parse() returned NULL without setting the error flag, so that the
caller carried on in the middle of the element. The same goes for a list of
other than three elements.
---
 sml/src/sml_time.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sml/src/sml_time.c b/sml/src/sml_time.c
index 6e7beba..dd9af56 100644
--- a/sml/src/sml_time.c
+++ b/sml/src/sml_time.c
@@ -70,7 +70,10 @@ sml_time *sml_time_parse(sml_buffer *buf) {
 		// Some meters (e.g. FROETEC Multiflex ZG22) giving not one uint32
 		// as timestamp, but a list of 3 values.
 		// Ignoring these values, so that parsing does not fail.
-		sml_buf_get_next_length(buf); // should we check the length here?
+		if (sml_buf_get_next_length(buf) != 3) {
+			buf->error = 1;
+			goto error;
+		}
 		u32 *t1 = sml_u32_parse(buf);
 		if (sml_buf_has_errors(buf)) {
 			if (t1)
@@ -107,6 +110,7 @@ sml_time *sml_time_parse(sml_buffer *buf) {
 			sml_number_free(t3);
 		break;
 	default:
+		buf->error = 1;
 		goto error;
 	}
 
-- 
2.43.0


From e0eeb0d67088cef5bc6a6a24d4b63eb9aa897d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:48 +0000
Subject: [PATCH 06/31] fix: flag an error for a ProcParValue without tag

---
 sml/src/sml_tree.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sml/src/sml_tree.c b/sml/src/sml_tree.c
index e54561e..a1e3a40 100644
--- a/sml/src/sml_tree.c
+++ b/sml/src/sml_tree.c
@@ -231,8 +231,10 @@ sml_proc_par_value *sml_proc_par_value_parse(sml_buffer *buf) {
 	}
 
 	ppv->tag = sml_u8_parse(buf);
-	if (sml_buf_has_errors(buf) || !(ppv->tag))
+	if (sml_buf_has_errors(buf) || !(ppv->tag)) {
+		buf->error = 1;
 		goto error;
+	}
 
 	switch (*(ppv->tag)) {
 	case SML_PROC_PAR_VALUE_TAG_VALUE:
-- 
2.43.0


From e1b166156c6bdae9c7c7cee76e8c807cd004c1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:48 +0000
Subject: [PATCH 07/31] fix: flag an error for a message body without tag

sml_message_body_parse() returned NULL without an error, and the message was
delivered with a missing body if its checksum matched.
---
 sml/src/sml_message.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sml/src/sml_message.c b/sml/src/sml_message.c
index de91085..4816419 100644
--- a/sml/src/sml_message.c
+++ b/sml/src/sml_message.c
@@ -166,8 +166,10 @@ sml_message_body *sml_message_body_parse(sml_buffer *buf) {
 	}
 
 	msg_body->tag = sml_u32_parse(buf);
-	if (sml_buf_has_errors(buf) || msg_body->tag == NULL)
+	if (sml_buf_has_errors(buf) || msg_body->tag == NULL) {
+		buf->error = 1;
 		goto error;
+	}
 
 	switch (*(msg_body->tag)) {
 	case SML_MESSAGE_OPEN_REQUEST:
-- 
2.43.0


From 6915db9599eeb7bf22ce766eea1c8b0c4e95de04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:49 +0000
Subject: [PATCH 08/31] fix: flag an error for a message of unknown type

The body was left unread and its bytes were taken for the checksum.
---
 sml/src/sml_message.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sml/src/sml_message.c b/sml/src/sml_message.c
index 4816419..6f812ce 100644
--- a/sml/src/sml_message.c
+++ b/sml/src/sml_message.c
@@ -216,6 +216,7 @@ sml_message_body *sml_message_body_parse(sml_buffer *buf) {
 		break;
 	default:
 		fprintf(stderr, "libsml: error: message type %04X not yet implemented\n", *(msg_body->tag));
+		buf->error = 1;
 		break;
 	}
 
-- 
2.43.0


From 06e7b369779d700b737d237763619daf8869464a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:49 +0000
Subject: [PATCH 09/31] fix: apply the DZG workaround to integers only

Octet strings and booleans were relabelled as unsigned, too: they were
leaked and read as numbers.
---
 sml/src/sml_list.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sml/src/sml_list.c b/sml/src/sml_list.c
index 3662d38..7400f7a 100644
--- a/sml/src/sml_list.c
+++ b/sml/src/sml_list.c
@@ -251,6 +251,7 @@ sml_list *sml_list_entry_parse(sml_buffer *buf, struct workarounds *workarounds)
 	} else if (workarounds->old_dzg_dvs74 && l->obj_name &&
 			   l->obj_name->len == sizeof(dzg_power_name) &&
 			   memcmp(l->obj_name->str, dzg_power_name, sizeof(dzg_power_name)) == 0 && l->value &&
+			   (l->value->type & SML_TYPE_FIELD) == SML_TYPE_INTEGER &&
 			   (value_len_more == 1 || value_len_more == 2 || value_len_more == 3)) {
 		l->value->type &= ~SML_TYPE_FIELD;
 		l->value->type |= SML_TYPE_UNSIGNED;
-- 
2.43.0


From 676be1b1852fea9e18ec6631bd05925e6a9dade7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:49 +0000
Subject: [PATCH 10/31] fix: do not leak the old checksum when writing a
 message

---
 sml/src/sml_message.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sml/src/sml_message.c b/sml/src/sml_message.c
index 6f812ce..8708bd6 100644
--- a/sml/src/sml_message.c
+++ b/sml/src/sml_message.c
@@ -135,6 +135,7 @@ void sml_message_write(sml_message *msg, sml_buffer *buf) {
 	sml_u8_write(msg->abort_on_error, buf);
 	sml_message_body_write(msg->message_body, buf);
 
+	sml_number_free(msg->crc); // of a parsed or already written message
 	msg->crc =
 		sml_u16_init(sml_crc16_calculate(&(buf->buffer[msg_start]), buf->cursor - msg_start));
 	sml_u16_write(msg->crc, buf);
-- 
2.43.0


From 23013c89c2c5881eb10f00f13b12fe82e19e1821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:49 +0000
Subject: [PATCH 11/31] fix: write the last entry of the object list

---
 sml/src/sml_get_profile_pack_request.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sml/src/sml_get_profile_pack_request.c b/sml/src/sml_get_profile_pack_request.c
index 6729b08..5020037 100644
--- a/sml/src/sml_get_profile_pack_request.c
+++ b/sml/src/sml_get_profile_pack_request.c
@@ -56,7 +56,7 @@ void sml_get_profile_pack_request_write(sml_get_profile_pack_request *msg, sml_b
 			len++;
 		}
 		sml_buf_set_type_and_length(buf, SML_TYPE_LIST, len);
-		for (l = msg->object_list; l->next; l = l->next) {
+		for (l = msg->object_list; l; l = l->next) {
 			sml_obj_req_entry_write(l->object_list_entry, buf);
 		}
 	} else {
-- 
2.43.0


From f9bb6f058368d74a63dccdf29a06889f70afce94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:50 +0000
Subject: [PATCH 12/31] fix: write an empty tree path as empty list

Nothing at all was written, so that the following element took its place.
---
 sml/src/sml_tree.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/sml/src/sml_tree.c b/sml/src/sml_tree.c
index a1e3a40..79ce0a1 100644
--- a/sml/src/sml_tree.c
+++ b/sml/src/sml_tree.c
@@ -73,13 +73,11 @@ void sml_tree_path_write(sml_tree_path *tree_path, sml_buffer *buf) {
 		return;
 	}
 
-	if (tree_path->path_entries && tree_path->path_entries_len > 0) {
-		sml_buf_set_type_and_length(buf, SML_TYPE_LIST, tree_path->path_entries_len);
+	sml_buf_set_type_and_length(buf, SML_TYPE_LIST, tree_path->path_entries_len);
 
-		int i;
-		for (i = 0; i < tree_path->path_entries_len; i++) {
-			sml_octet_string_write(tree_path->path_entries[i], buf);
-		}
+	int i;
+	for (i = 0; i < tree_path->path_entries_len; i++) {
+		sml_octet_string_write(tree_path->path_entries[i], buf);
 	}
 }
 
-- 
2.43.0


From 3c2fcb7f73b3678c4fde7343a6c3fb8c413665da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:54 +0000
Subject: [PATCH 13/31] fix: grow the buffer of a file when writing

Whatever is written was put into the fixed 512 bytes of sml_file_init(), or
the size of the file that was parsed, without checking that it fits: bigger
files overflowed the heap buffer.
---
 sml/include/sml/sml_shared.h |  4 ++++
 sml/src/sml_boolean.c        |  3 +++
 sml/src/sml_message.c        |  3 +++
 sml/src/sml_number.c         |  3 +++
 sml/src/sml_octet_string.c   |  3 +++
 sml/src/sml_shared.c         | 29 +++++++++++++++++++++++++++++
 sml/src/sml_transport.c      |  8 ++++++++
 7 files changed, 53 insertions(+)

diff --git a/sml/include/sml/sml_shared.h b/sml/include/sml/sml_shared.h
index 86dec36..581131b 100644
--- a/sml/include/sml/sml_shared.h
+++ b/sml/include/sml/sml_shared.h
@@ -84,6 +84,10 @@ void sml_buffer_free(sml_buffer *buf);
 // the value field.
 int sml_buf_get_next_length(sml_buffer *buf);
 
+// Makes room for a number of bytes to be written at the current position.
+// Returns 0 and flags an error if there is no memory for it.
+int sml_buf_reserve(sml_buffer *buf, size_t bytes);
+
 void sml_buf_set_type_and_length(sml_buffer *buf, unsigned int type, unsigned int l);
 
 // Checks if a error is occured.
diff --git a/sml/src/sml_boolean.c b/sml/src/sml_boolean.c
index b1a8548..f247f07 100644
--- a/sml/src/sml_boolean.c
+++ b/sml/src/sml_boolean.c
@@ -62,6 +62,9 @@ void sml_boolean_write(sml_boolean *boolean, sml_buffer *buf) {
 	}
 
 	sml_buf_set_type_and_length(buf, SML_TYPE_BOOLEAN, 1);
+	if (!sml_buf_reserve(buf, 1)) {
+		return;
+	}
 	if (*boolean == SML_BOOLEAN_FALSE) {
 		buf->buffer[buf->cursor] = SML_BOOLEAN_FALSE;
 	} else {
diff --git a/sml/src/sml_message.c b/sml/src/sml_message.c
index 8708bd6..d9e2a2a 100644
--- a/sml/src/sml_message.c
+++ b/sml/src/sml_message.c
@@ -141,6 +141,9 @@ void sml_message_write(sml_message *msg, sml_buffer *buf) {
 	sml_u16_write(msg->crc, buf);
 
 	// end of message
+	if (!sml_buf_reserve(buf, 1)) {
+		return;
+	}
 	buf->buffer[buf->cursor] = 0x0;
 	buf->cursor++;
 }
diff --git a/sml/src/sml_number.c b/sml/src/sml_number.c
index dd6c383..d0107a7 100644
--- a/sml/src/sml_number.c
+++ b/sml/src/sml_number.c
@@ -135,6 +135,9 @@ void sml_number_write(void *np, unsigned char type, int size, sml_buffer *buf) {
 	}
 
 	sml_buf_set_type_and_length(buf, type, size);
+	if (!sml_buf_reserve(buf, size)) {
+		return;
+	}
 	memcpy(sml_buf_get_current_buf(buf), np, size);
 
 	if (!(sml_number_endian() == SML_BIG_ENDIAN)) {
diff --git a/sml/src/sml_octet_string.c b/sml/src/sml_octet_string.c
index f7db408..b221938 100644
--- a/sml/src/sml_octet_string.c
+++ b/sml/src/sml_octet_string.c
@@ -95,6 +95,9 @@ void sml_octet_string_write(octet_string *str, sml_buffer *buf) {
 	}
 
 	sml_buf_set_type_and_length(buf, SML_TYPE_OCTET_STRING, (unsigned int)str->len);
+	if (!sml_buf_reserve(buf, str->len)) {
+		return;
+	}
 	memcpy(sml_buf_get_current_buf(buf), str->str, str->len);
 	buf->cursor += str->len;
 }
diff --git a/sml/src/sml_shared.c b/sml/src/sml_shared.c
index aceb36b..9b38e1e 100644
--- a/sml/src/sml_shared.c
+++ b/sml/src/sml_shared.c
@@ -59,7 +59,32 @@ int sml_buf_get_next_length(sml_buffer *buf) {
 	return length + list;
 }
 
+int sml_buf_reserve(sml_buffer *buf, size_t bytes) {
+	if (bytes <= buf->buffer_len && buf->cursor <= buf->buffer_len - bytes) {
+		return 1;
+	}
+
+	size_t length = 2 * buf->buffer_len;
+	if (length < buf->cursor + bytes) {
+		length = buf->cursor + bytes;
+	}
+	unsigned char *buffer = (unsigned char *)realloc(buf->buffer, length);
+	if (!buffer) {
+		buf->error = 1;
+		return 0;
+	}
+	memset(buffer + buf->buffer_len, 0, length - buf->buffer_len);
+	buf->buffer = buffer;
+	buf->buffer_len = length;
+	return 1;
+}
+
 void sml_buf_set_type_and_length(sml_buffer *buf, unsigned int type, unsigned int l) {
+	// there is one TL-field per 4 bits of the length at most
+	if (!sml_buf_reserve(buf, 2 * sizeof(unsigned int))) {
+		return;
+	}
+
 	// set the type
 	buf->buffer[buf->cursor] = type;
 
@@ -137,6 +162,10 @@ sml_buffer *sml_buffer_init(size_t length) {
 }
 
 void sml_buf_optional_write(sml_buffer *buf) {
+	if (!sml_buf_reserve(buf, 1)) {
+		return;
+	}
+
 	buf->buffer[buf->cursor] = SML_OPTIONAL_SKIPPED;
 	buf->cursor++;
 }
diff --git a/sml/src/sml_transport.c b/sml/src/sml_transport.c
index 17f868c..945d77f 100644
--- a/sml/src/sml_transport.c
+++ b/sml/src/sml_transport.c
@@ -129,12 +129,20 @@ int sml_transport_write(int fd, sml_file *file) {
 	buf->cursor = 0;
 
 	// add start sequence
+	if (!sml_buf_reserve(buf, 8)) {
+		return 0;
+	}
 	memcpy(sml_buf_get_current_buf(buf), start_seq, 8);
 	buf->cursor += 8;
 
 	// add file
 	sml_file_write(file);
 
+	// room for padding and end sequence
+	if (!sml_buf_reserve(buf, 3 + 8)) {
+		return 0;
+	}
+
 	// add padding bytes
 	int padding = (buf->cursor % 4) ? (4 - buf->cursor % 4) : 0;
 	if (padding) {
-- 
2.43.0


From 1d9cdc6a4231ee36cba15637773345ad0b2162eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:54 +0000
Subject: [PATCH 14/31] fix: count the messages of a file in an int

The short overflowed at 32768 messages, which a file of about 500 kB has.
---
 sml/include/sml/sml_file.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sml/include/sml/sml_file.h b/sml/include/sml/sml_file.h
index d864d40..b6cd76f 100644
--- a/sml/include/sml/sml_file.h
+++ b/sml/include/sml/sml_file.h
@@ -30,7 +30,7 @@ extern "C" {
 // a SML file consist of multiple SML messages
 typedef struct {
 	sml_message **messages;
-	short messages_len;
+	int messages_len;
 	sml_buffer *buf;
 } sml_file;
 
-- 
2.43.0


From 7a4a4b5fdeef21381f9e2231622681edccc45b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:55 +0000
Subject: [PATCH 15/31] fix: limit the nesting of parsed trees

The recursion was only limited by the size of the input, so that a file of
nested trees exhausted the stack.
---
 sml/src/sml_tree.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/sml/src/sml_tree.c b/sml/src/sml_tree.c
index 79ce0a1..8688845 100644
--- a/sml/src/sml_tree.c
+++ b/sml/src/sml_tree.c
@@ -106,11 +106,19 @@ sml_tree *sml_tree_init() {
 	return tree;
 }
 
-sml_tree *sml_tree_parse(sml_buffer *buf) {
+// Trees nested deeper are refused, as a hostile file could exhaust the stack.
+#define SML_TREE_MAX_DEPTH 4096
+
+static sml_tree *sml_tree_parse_(sml_buffer *buf, int depth) {
 	if (sml_buf_optional_is_skipped(buf)) {
 		return NULL;
 	}
 
+	if (depth > SML_TREE_MAX_DEPTH) {
+		buf->error = 1;
+		return NULL;
+	}
+
 	sml_tree *tree = sml_tree_init();
 
 	if (sml_buf_get_next_type(buf) != SML_TYPE_LIST) {
@@ -140,7 +148,7 @@ sml_tree *sml_tree_parse(sml_buffer *buf) {
 		sml_tree *c;
 		int elems;
 		for (elems = sml_buf_get_next_length(buf); elems > 0; elems--) {
-			c = sml_tree_parse(buf);
+			c = sml_tree_parse_(buf, depth + 1);
 			if (sml_buf_has_errors(buf)) {
 				if (c)
 					sml_tree_free(c);
@@ -159,6 +167,8 @@ error:
 	return NULL;
 }
 
+sml_tree *sml_tree_parse(sml_buffer *buf) { return sml_tree_parse_(buf, 1); }
+
 void sml_tree_add_tree(sml_tree *base_tree, sml_tree *tree) {
 	base_tree->child_list_len++;
 	base_tree->child_list =
-- 
2.43.0


From d3495619cc3d9258fa1d70dc35cad130cc9af8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:55 +0000
Subject: [PATCH 16/31] fix: find a start sequence that follows or overlaps a
 partial one

A byte that did not continue the start sequence was dropped, though it may
begin the next one, so that a frame after noise ending in 0x1b was lost.
---
 sml/src/sml_transport.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sml/src/sml_transport.c b/sml/src/sml_transport.c
index 945d77f..38fa69a 100644
--- a/sml/src/sml_transport.c
+++ b/sml/src/sml_transport.c
@@ -79,6 +79,12 @@ size_t sml_transport_read(int fd, unsigned char *buffer, size_t max_len) {
 
 		if ((buf[len] == 0x1b && len < 4) || (buf[len] == 0x01 && len >= 4)) {
 			len++;
+		} else if (buf[len] == 0x1b) {
+			// a start sequence may begin within the bytes seen so far: the last
+			// four of a longer run of 0x1b, or this byte after a partial one
+			if (len != 4) {
+				len = 1;
+			}
 		} else {
 			len = 0;
 		}
-- 
2.43.0


From 5337cf39deb77451a4acb5a755b15769bcc9627d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:55 +0000
Subject: [PATCH 17/31] fix: do not crash comparing with an odd number of hex
 digits

---
 sml/src/sml_octet_string.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sml/src/sml_octet_string.c b/sml/src/sml_octet_string.c
index b221938..64b7a8c 100644
--- a/sml/src/sml_octet_string.c
+++ b/sml/src/sml_octet_string.c
@@ -134,6 +134,9 @@ int sml_octet_string_cmp(octet_string *s1, octet_string *s2) {
 
 int sml_octet_string_cmp_with_hex(octet_string *str, char *hex) {
 	octet_string *hstr = sml_octet_string_init_from_hex(hex);
+	if (!hstr) {
+		return -1;
+	}
 	if (str->len != hstr->len) {
 		sml_octet_string_free(hstr);
 		return -1;
-- 
2.43.0


From 48937e41773950de2d28283ce3b17578d99170b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:56 +0000
Subject: [PATCH 18/31] fix: set the result of sml_value_to_strhex() in any
 case

The caller, like sml_server, frees it, but it was left uninitialized for an
empty octet string.
---
 sml/src/sml_value.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sml/src/sml_value.c b/sml/src/sml_value.c
index 5b57b8f..fda0228 100644
--- a/sml/src/sml_value.c
+++ b/sml/src/sml_value.c
@@ -150,6 +150,8 @@ double sml_value_to_double(sml_value *value) {
 char *sml_value_to_strhex(sml_value *value, char **result, bool mixed) {
 	const char hex_str[] = "0123456789abcdef";
 
+	*result = NULL;
+
 	if (value == NULL || value->data.bytes == NULL || value->data.bytes->str == NULL)
 		return NULL;
 
-- 
2.43.0


From 2719e60d0c756d291e8b58acbc9005c54f704013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:56 +0000
Subject: [PATCH 19/31] fix: sml_server: skip entries without an object name

The name is optional on the wire and may be of any length, but was
dereferenced without a check.
---
 examples/sml_server.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/examples/sml_server.c b/examples/sml_server.c
index 1de47bc..43ebedb 100644
--- a/examples/sml_server.c
+++ b/examples/sml_server.c
@@ -109,6 +109,10 @@ void transport_receiver(unsigned char *buffer, size_t buffer_len) {
 					fprintf(stderr, "Error in data stream. entry->value should not be NULL. Skipping this.\n");
 					continue;
 				}
+				if (!entry->obj_name || entry->obj_name->len < 6) { // no OBIS code
+					fprintf(stderr, "Error in data stream. entry->obj_name should have 6 bytes. Skipping this.\n");
+					continue;
+				}
 				if (entry->value->type == SML_TYPE_OCTET_STRING) {
 					char *str;
 					printf("%d-%d:%d.%d.%d*%d#%s#\n",
-- 
2.43.0


From 143d5fc2457a6fda5025f09f67205cdc479c5988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:56 +0000
Subject: [PATCH 20/31] fix: sml_server: print the value of booleans

The pointer was printed, which is always true.
---
 examples/sml_server.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/examples/sml_server.c b/examples/sml_server.c
index 43ebedb..883e9b8 100644
--- a/examples/sml_server.c
+++ b/examples/sml_server.c
@@ -126,7 +126,7 @@ void transport_receiver(unsigned char *buffer, size_t buffer_len) {
 						entry->obj_name->str[0], entry->obj_name->str[1],
 						entry->obj_name->str[2], entry->obj_name->str[3],
 						entry->obj_name->str[4], entry->obj_name->str[5],
-						entry->value->data.boolean ? "true" : "false");
+						*entry->value->data.boolean ? "true" : "false");
 				} else if (((entry->value->type & SML_TYPE_FIELD) == SML_TYPE_INTEGER) ||
 						((entry->value->type & SML_TYPE_FIELD) == SML_TYPE_UNSIGNED)) {
 					double value = sml_value_to_double(entry->value);
-- 
2.43.0


From 0af61852fb7b2c2183a14af8dd8b02da5814452d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:56 +0000
Subject: [PATCH 21/31] fix: sml_server: do not print a NULL string

sml_value_to_strhex() returns no text for an empty octet string.
---
 examples/sml_server.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/examples/sml_server.c b/examples/sml_server.c
index 883e9b8..c222ed5 100644
--- a/examples/sml_server.c
+++ b/examples/sml_server.c
@@ -119,7 +119,7 @@ void transport_receiver(unsigned char *buffer, size_t buffer_len) {
 						entry->obj_name->str[0], entry->obj_name->str[1],
 						entry->obj_name->str[2], entry->obj_name->str[3],
 						entry->obj_name->str[4], entry->obj_name->str[5],
-						sml_value_to_strhex(entry->value, &str, true));
+						sml_value_to_strhex(entry->value, &str, true) ? str : "");
 					free(str);
 				} else if (entry->value->type == SML_TYPE_BOOLEAN) {
 					printf("%d-%d:%d.%d.%d*%d#%s#\n",
-- 
2.43.0


From a13ddf0da3451d2428896ae660994cc07777b15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:57 +0000
Subject: [PATCH 22/31] fix: close /dev/urandom

---
 sml/src/sml_octet_string.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sml/src/sml_octet_string.c b/sml/src/sml_octet_string.c
index 64b7a8c..20d160b 100644
--- a/sml/src/sml_octet_string.c
+++ b/sml/src/sml_octet_string.c
@@ -113,6 +113,7 @@ octet_string *sml_octet_string_generate_uuid() {
 #ifdef __linux__
 	int fd = open("/dev/urandom", O_RDONLY);
 	read(fd, uuid, 16);
+	close(fd);
 #else
 	int i;
 	for (i = 0; i < 16; i++) {
-- 
2.43.0


From 2a8d8202f573f533a6579d146475f477f62f7730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:57 +0000
Subject: [PATCH 23/31] fix: accept an octet string that ends with the buffer

---
 sml/src/sml_octet_string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sml/src/sml_octet_string.c b/sml/src/sml_octet_string.c
index 20d160b..153bc9c 100644
--- a/sml/src/sml_octet_string.c
+++ b/sml/src/sml_octet_string.c
@@ -77,7 +77,7 @@ octet_string *sml_octet_string_parse(sml_buffer *buf) {
 	}
 
 	l = sml_buf_get_next_length(buf);
-	if (l < 0 || l >= (buf->buffer_len - buf->cursor)) { // sanity check: doesnt fit into buffer...
+	if (l < 0 || l > (buf->buffer_len - buf->cursor)) { // sanity check: doesnt fit into buffer...
 		// libFuzzer fix for crash-3b12f21fdd346700ac1a10dfebba7604be8f070c
 		buf->error = 1;
 		return NULL;
-- 
2.43.0


From a64cd5046b793a8d0c1482055390b7fc7122b472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:05 +0000
Subject: [PATCH 24/31] fix: sml_transport_read: do not copy a caller's buffer
 of any size onto the stack

---
 sml/src/sml_transport.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sml/src/sml_transport.c b/sml/src/sml_transport.c
index 38fa69a..c79bcb6 100644
--- a/sml/src/sml_transport.c
+++ b/sml/src/sml_transport.c
@@ -62,8 +62,7 @@ size_t sml_transport_read(int fd, unsigned char *buffer, size_t max_len) {
 	FD_ZERO(&readfds);
 	FD_SET(fd, &readfds);
 
-	unsigned char buf[max_len];
-	memset(buf, 0, max_len);
+	unsigned char *buf = buffer;
 	unsigned int len = 0;
 
 	if (max_len < 8) {
@@ -106,7 +105,6 @@ size_t sml_transport_read(int fd, unsigned char *buffer, size_t max_len) {
 			if (buf[len] == 0x1a) {
 				// found end sequence
 				len += 4;
-				memcpy(buffer, &(buf[0]), len);
 				return len;
 			} else {
 				// don't read other escaped sequences yet
-- 
2.43.0


From 8a5748f71aafcee0c9d7c79faed41bd72602badf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:32 +0000
Subject: [PATCH 25/31] fix: sml_time_write: write a time without value so that
 it can be read back

---
 sml/src/sml_time.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sml/src/sml_time.c b/sml/src/sml_time.c
index dd9af56..ca64d3d 100644
--- a/sml/src/sml_time.c
+++ b/sml/src/sml_time.c
@@ -122,7 +122,8 @@ error:
 }
 
 void sml_time_write(sml_time *t, sml_buffer *buf) {
-	if (t == 0) {
+	// a time without value (e.g. parsed from a list of 3) can not be read back
+	if (t == 0 || t->data.timestamp == 0) {
 		sml_buf_optional_write(buf);
 		return;
 	}
-- 
2.43.0


From bb1a5f874720a55115adc35a76818b39e42fa155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:51 +0000
Subject: [PATCH 26/31] fix: sml_octet_string_init_from_hex: do not put a
 string of any size onto the stack

---
 sml/src/sml_octet_string.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sml/src/sml_octet_string.c b/sml/src/sml_octet_string.c
index 153bc9c..d5c6ef4 100644
--- a/sml/src/sml_octet_string.c
+++ b/sml/src/sml_octet_string.c
@@ -49,11 +49,11 @@ octet_string *sml_octet_string_init_from_hex(char *str) {
 	if (len % 2 != 0) {
 		return NULL;
 	}
-	unsigned char bytes[len / 2];
+	octet_string *bytes = sml_octet_string_init((unsigned char *)str, len / 2);
 	for (i = 0; i < (len / 2); i++) {
-		bytes[i] = c2ptoi(&(str[i * 2]));
+		bytes->str[i] = c2ptoi(&(str[i * 2]));
 	}
-	return sml_octet_string_init(bytes, len / 2);
+	return bytes;
 }
 
 void sml_octet_string_free(octet_string *str) {
-- 
2.43.0


From b7378e089c79e897d3fa342c9768326736e1a263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:21 +0000
Subject: [PATCH 27/31] Revert "fix: sml_server: do not print a NULL string"

This reverts commit 0af61852fb7b2c2183a14af8dd8b02da5814452d.
---
 examples/sml_server.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/examples/sml_server.c b/examples/sml_server.c
index c222ed5..883e9b8 100644
--- a/examples/sml_server.c
+++ b/examples/sml_server.c
@@ -119,7 +119,7 @@ void transport_receiver(unsigned char *buffer, size_t buffer_len) {
 						entry->obj_name->str[0], entry->obj_name->str[1],
 						entry->obj_name->str[2], entry->obj_name->str[3],
 						entry->obj_name->str[4], entry->obj_name->str[5],
-						sml_value_to_strhex(entry->value, &str, true) ? str : "");
+						sml_value_to_strhex(entry->value, &str, true));
 					free(str);
 				} else if (entry->value->type == SML_TYPE_BOOLEAN) {
 					printf("%d-%d:%d.%d.%d*%d#%s#\n",
-- 
2.43.0


From 07c08a3abd472c37436a87bc235d347aaa08bf40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:21 +0000
Subject: [PATCH 28/31] Revert "fix: sml_server: print the value of booleans"

This reverts commit 143d5fc2457a6fda5025f09f67205cdc479c5988.
---
 examples/sml_server.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/examples/sml_server.c b/examples/sml_server.c
index 883e9b8..43ebedb 100644
--- a/examples/sml_server.c
+++ b/examples/sml_server.c
@@ -126,7 +126,7 @@ void transport_receiver(unsigned char *buffer, size_t buffer_len) {
 						entry->obj_name->str[0], entry->obj_name->str[1],
 						entry->obj_name->str[2], entry->obj_name->str[3],
 						entry->obj_name->str[4], entry->obj_name->str[5],
-						*entry->value->data.boolean ? "true" : "false");
+						entry->value->data.boolean ? "true" : "false");
 				} else if (((entry->value->type & SML_TYPE_FIELD) == SML_TYPE_INTEGER) ||
 						((entry->value->type & SML_TYPE_FIELD) == SML_TYPE_UNSIGNED)) {
 					double value = sml_value_to_double(entry->value);
-- 
2.43.0


From a77fa2ef68fc2e1490c513ca69a8f6c64b1371bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:21 +0000
Subject: [PATCH 29/31] Revert "fix: sml_server: skip entries without an object
 name"

This reverts commit 2719e60d0c756d291e8b58acbc9005c54f704013.
---
 examples/sml_server.c | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/examples/sml_server.c b/examples/sml_server.c
index 43ebedb..1de47bc 100644
--- a/examples/sml_server.c
+++ b/examples/sml_server.c
@@ -109,10 +109,6 @@ void transport_receiver(unsigned char *buffer, size_t buffer_len) {
 					fprintf(stderr, "Error in data stream. entry->value should not be NULL. Skipping this.\n");
 					continue;
 				}
-				if (!entry->obj_name || entry->obj_name->len < 6) { // no OBIS code
-					fprintf(stderr, "Error in data stream. entry->obj_name should have 6 bytes. Skipping this.\n");
-					continue;
-				}
 				if (entry->value->type == SML_TYPE_OCTET_STRING) {
 					char *str;
 					printf("%d-%d:%d.%d.%d*%d#%s#\n",
-- 
2.43.0


From 7f1621615d50425c92d44569e159e537e65eea27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:16 +0000
Subject: [PATCH 30/31] fix: sml_transport_read: wait with poll(), an fd_set
 ends at descriptor 1023

---
 sml/src/sml_transport.c | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/sml/src/sml_transport.c b/sml/src/sml_transport.c
index c79bcb6..e3c87e1 100644
--- a/sml/src/sml_transport.c
+++ b/sml/src/sml_transport.c
@@ -17,12 +17,12 @@
 // along with libSML.  If not, see <http://www.gnu.org/licenses/>.
 
 #include <errno.h> // for errno
+#include <poll.h>
 #include <sml/sml_crc16.h>
 #include <sml/sml_shared.h>
 #include <sml/sml_transport.h>
 #include <stdio.h>
 #include <string.h>
-#include <sys/time.h>
 #include <sys/types.h>
 #include <unistd.h>
 
@@ -32,14 +32,16 @@ unsigned char esc_seq[] = {0x1b, 0x1b, 0x1b, 0x1b};
 unsigned char start_seq[] = {0x1b, 0x1b, 0x1b, 0x1b, 0x01, 0x01, 0x01, 0x01};
 unsigned char end_seq[] = {0x1b, 0x1b, 0x1b, 0x1b, 0x1a};
 
-size_t sml_read(int fd, fd_set *set, unsigned char *buffer, size_t len) {
+size_t sml_read(int fd, unsigned char *buffer, size_t len) {
 
 	ssize_t r = 0;
 	size_t tr = 0;
+	// not select(): an fd_set has no room for descriptors of FD_SETSIZE and above
+	struct pollfd pfd = {.fd = fd, .events = POLLIN};
 
 	while (tr < len) {
-		select(fd + 1, set, 0, 0, 0);
-		if (FD_ISSET(fd, set)) {
+		poll(&pfd, 1, -1);
+		if (pfd.revents) {
 
 			r = read(fd, &(buffer[tr]), len - tr);
 			if (r == 0)
@@ -58,10 +60,6 @@ size_t sml_read(int fd, fd_set *set, unsigned char *buffer, size_t len) {
 
 size_t sml_transport_read(int fd, unsigned char *buffer, size_t max_len) {
 
-	fd_set readfds;
-	FD_ZERO(&readfds);
-	FD_SET(fd, &readfds);
-
 	unsigned char *buf = buffer;
 	unsigned int len = 0;
 
@@ -72,7 +70,7 @@ size_t sml_transport_read(int fd, unsigned char *buffer, size_t max_len) {
 	}
 
 	while (len < 8) {
-		if (sml_read(fd, &readfds, &(buf[len]), 1) == 0) {
+		if (sml_read(fd, &(buf[len]), 1) == 0) {
 			return 0;
 		}
 
@@ -91,14 +89,14 @@ size_t sml_transport_read(int fd, unsigned char *buffer, size_t max_len) {
 
 	// found start sequence
 	while ((len + 8) < max_len) {
-		if (sml_read(fd, &readfds, &(buf[len]), 4) == 0) {
+		if (sml_read(fd, &(buf[len]), 4) == 0) {
 			return 0;
 		}
 
 		if (memcmp(&buf[len], esc_seq, 4) == 0) {
 			// found esc sequence
 			len += 4;
-			if (sml_read(fd, &readfds, &(buf[len]), 4) == 0) {
+			if (sml_read(fd, &(buf[len]), 4) == 0) {
 				return 0;
 			}
 
-- 
2.43.0


From 57f8700fd399762f1aece3d7f435729409069c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:44 +0000
Subject: [PATCH 31/31] fix: sml_transport_write: return 0 if memory runs out
 while the file is written

---
 sml/src/sml_message.c   | 3 +++
 sml/src/sml_transport.c | 9 ++++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/sml/src/sml_message.c b/sml/src/sml_message.c
index d9e2a2a..e32e0d6 100644
--- a/sml/src/sml_message.c
+++ b/sml/src/sml_message.c
@@ -138,6 +138,9 @@ void sml_message_write(sml_message *msg, sml_buffer *buf) {
 	sml_number_free(msg->crc); // of a parsed or already written message
 	msg->crc =
 		sml_u16_init(sml_crc16_calculate(&(buf->buffer[msg_start]), buf->cursor - msg_start));
+	if (!msg->crc) {
+		buf->error = 1; // out of memory
+	}
 	sml_u16_write(msg->crc, buf);
 
 	// end of message
diff --git a/sml/src/sml_transport.c b/sml/src/sml_transport.c
index e3c87e1..21a892e 100644
--- a/sml/src/sml_transport.c
+++ b/sml/src/sml_transport.c
@@ -137,8 +137,15 @@ int sml_transport_write(int fd, sml_file *file) {
 	memcpy(sml_buf_get_current_buf(buf), start_seq, 8);
 	buf->cursor += 8;
 
-	// add file
+	// add file, the buffer may carry an error from parsing
+	int parse_error = buf->error;
+	buf->error = 0;
 	sml_file_write(file);
+	int write_error = buf->error;
+	buf->error = parse_error;
+	if (write_error) {
+		return 0; // out of memory, the file is incomplete
+	}
 
 	// room for padding and end sequence
 	if (!sml_buf_reserve(buf, 3 + 8)) {
-- 
2.43.0

