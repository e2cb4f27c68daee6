import json
S="sml/src/"
def P(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    return {"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a}
L=[
P("C01","Parsing any bytes is memory-safe, terminates and leaks nothing",
"For every byte string handed to the file parser, parsing it and then freeing the result terminates, never touches memory outside the input copy and the objects it allocated, and leaves no allocation behind. This holds whether the bytes are valid, damaged, truncated, deeply nested or hostile.",
["inputs"],"all byte strings (checked exhaustively over: all truncations, all single-byte replacements and bounded structural deviations of messages of every kind, and the parser's whole decision tree over a token alphabet up to a depth)",
"Tests parse one crash report and a handful of valid snippets; memory errors and leaks live in the unsampled error paths of some 40 parse functions.",
[S+"*.c","sml/include/sml/*.h"],
[("bounds checks before every cursor move","sml/src/sml_shared.c, sml_octet_string.c, sml_number.c"),("error: labels freeing partial objects","every *_parse function"),("nesting limit for trees","sml/src/sml_tree.c")],
["sml_file_parse","sml_file_free"],[("sml_buffer.cursor/error","parse position and sticky error flag","sml_shared.h")]),
P("C02","Well-formed messages decode to exactly the values they encode",
"When a file holds well-formed messages of any of the 14 defined kinds with valid checksums, parsing delivers all of them in file order. Every field has exactly the value, signedness, width, length and presence that the bytes encode, for every legal encoding of it: integers shortened to fewer bytes, length headers of one or several bytes, omitted optional fields, lists of any size and trees of any shape (trees nested more than several hundred deep may be refused).",
["inputs"],"all well-formed files of the 14 message kinds, all field values, all legal encodings of each field",
"Tests decode single elements; only one kind of message body is ever parsed and most fields, optional combinations and encodings are never exercised.",
[S+"sml_file.c",S+"sml_message.c",S+"sml_list.c",S+"sml_tree.c",S+"sml_time.c",S+"sml_value.c",S+"sml_status.c",S+"sml_get_*.c",S+"sml_open_*.c",S+"sml_close_*.c",S+"sml_set_proc_parameter_request.c",S+"sml_attention_response.c"],
[("dispatch on the message tag","sml_message_body_parse"),("one parse function per structure, fields in order","all *_parse")],["sml_file_parse","sml_message_parse and the public structs"]),
P("C03","A malformed message is never delivered, not even in part",
"A message whose bytes do not follow the structure of its kind (wrong number or type of elements, a length that does not fit the field or the remaining input, an integer longer than eight bytes, a missing or undefined choice tag, an unknown message kind) is never delivered, nor is any object made from part of it. All messages that precede it in the file are still delivered unchanged.",
["inputs"],"all structural deviations of files of every message kind, also with a checksum recomputed to match",
"Tests try three malformed inputs; each of the several hundred structural checks needs its own near-miss input with a correct checksum.",
[S+"sml_message.c",S+"sml_file.c",S+"sml_shared.c",S+"sml_list.c",S+"sml_tree.c",S+"sml_time.c",S+"sml_number.c"],
[("type and element-count checks","every *_parse"),("sticky error flag ends the file","sml_file_parse")],["sml_file_parse: messages, messages_len"]),
P("C04","Exactly the messages whose checksum matches are delivered",
"A well-formed message is delivered if and only if its checksum field equals the CRC-16/X.25 (as SML transmits it) or the CRC-16/Kermit of exactly the bytes from the start of the message up to the checksum field. A message with any other checksum is dropped by itself: the messages before and after it in the same file are still delivered, in order.",
["inputs","histories"],"all sequences of intact and damaged messages, all 65536 checksum values, every position of a flipped bit",
"One test flips one bit in one lone message; which bytes the checksum covers, its interplay with neighbouring messages and the second accepted polynomial are untested.",
[S+"sml_message.c",S+"sml_file.c",S+"sml_crc16.c"],
[("checksum comparison with both polynomials","sml_message_parse"),("drop without error flag, continue with next message","sml_message_parse / sml_file_parse")],["sml_file_parse: messages"]),
P("C05","A cut-off file yields exactly the messages completed before the cut",
"When a file of well-formed messages is cut off after any byte, parsing it delivers exactly the messages that are complete before the cut, unchanged and in order, and nothing of the incomplete one. Zero bytes between or after messages (padding) change nothing.",
["inputs","crash_points"],"every cut position of every file over sequences of message kinds, any number of padding zeros between and after messages",
"No test truncates an input systematically; there are hundreds of cut positions per message kind.",
[S+"sml_file.c",S+"sml_message.c",S+"sml_shared.c"],
[("end-of-buffer checks","sml_buf_get_next_type/next_length/optional_is_skipped"),("skipping of zero bytes","sml_file_parse")],["sml_file_parse: messages"]),
P("C06","Length headers are written minimally and read back exactly",
"For every type and every length, the header written for it is the shortest one the format has and reads back as the same type and length, where the length of a list counts its elements and every other length counts the bytes of content. What was in the output buffer before never influences the header.",
["inputs"],"all types, all lengths up to 2^20 and around every power of 16 up to 2^28, all previous buffer contents",
"Tests write headers for lengths 5 and 16 only, into a zeroed buffer; the carry at each power of 16 and multi-byte list headers are never reached.",
[S+"sml_shared.c"],[("nibble-wise header encoding","sml_buf_set_type_and_length"),("nibble-wise header decoding","sml_buf_get_next_length")],["buffer content and cursor after the calls"]),
P("C07","Whatever is built through the API and written reads back identically",
"Every message of any of the 14 kinds that a program builds with the public constructors can be written into a file of any size, and parsing the written bytes gives back a message with the same kind, the same fields present or absent, and the same values, lists and trees. The bytes written are the canonical SML encoding of that message, in which an empty string and an absent one are the same.",
["inputs","programs"],"all messages of the 14 kinds over field alphabets, lists and strings of sizes around every header boundary, files below, at and above the initial buffer size",
"No test writes any message and reads it back; write functions of whole message bodies are never called by a test.",
[S+"*_write functions in all sml_*.c"],
[("one write function per structure","all *_write"),("checksum appended by the writer","sml_message_write"),("growing output buffer","sml_shared.c")],["sml_file_write, sml_message_write, file->buf"]),
P("C08","Writing a received or already written file again changes nothing",
"A file obtained by parsing can be written again, and any file can be written any number of times, into a fresh buffer or over the one used before; each time the bytes are the same and parse back to the same values, apart from list-form times, which the parser reports as ignored, and empty strings, which are written as absent ones. If the received messages were canonically encoded, they are reproduced byte for byte.",
["inputs","histories"],"all parsed files of every message kind, all sequences of parse, write, rewind and rewrite up to a depth",
"Tests never write what was parsed and never write into a used buffer.",
[S+"sml_file.c",S+"sml_transport.c",S+"sml_shared.c",S+"sml_message.c"],
[("buffer reuse with cursor reset","sml_transport_write / sml_file_write"),("header bytes assigned, not merged","sml_buf_set_type_and_length")],["file->buf content, reparsed messages"]),
P("C09","Integers keep value, sign and width in both directions",
"An integer of 8, 16, 32 or 64 bits, signed or unsigned, decodes from any number of content bytes up to its width to exactly the big-endian number (sign-extended if signed) that those bytes denote, whatever bytes follow it, and is encoded big-endian in its full width. A value or status field takes the smallest of the four widths that holds the transmitted bytes, and more than eight bytes are refused.",
["inputs"],"all contents of 0 to 3 bytes completely and boundary patterns of 4 to 8 bytes, every type, every following byte",
"Tests use about a dozen numbers; sign extension depends on every combination of length, sign bit and width.",
[S+"sml_number.c",S+"sml_value.c",S+"sml_status.c"],
[("sign extension and byte swap","sml_number_parse"),("width selection","sml_value_parse, sml_status_parse")],["sml_{u,i}{8,16,32,64}_parse/_write, sml_value_parse, sml_status_parse"]),
P("C10","The checksum functions compute CRC-16/X.25 and CRC-16/Kermit",
"For every byte sequence of every length, the SML checksum function returns the byte-swapped CRC-16/X.25 and the Kermit function returns the CRC-16/Kermit of exactly that sequence, independently of what is stored around it.",
["inputs"],"every transition of the 65536-state CRC automaton (all sequences of up to 3 bytes), all lengths up to several thousand for selected contents",
"Tests call the checksum only through two fixed messages, which exercise a fraction of the 256 table entries.",
[S+"sml_crc16.c"],[("table-driven CRC","sml_crc16_calculate, sml_crc16kermit_calculate")],["return values"]),
P("C11","The frame reader finds every frame, however the bytes arrive",
"From any byte stream, a read of the transport layer returns exactly the bytes of the next frame, from the first start sequence (even right after a partial or overlapping one) through the end sequence with its three trailing bytes. The result does not depend on how the bytes are split over reads or on interruptions and temporary unavailability, and no byte after the returned frame is consumed.",
["inputs","schedules","fault_sequences"],"all noise strings over the significant bytes before a frame, all payload word sequences up to a bound, all ways to split the stream into reads, all placements of up to a bound of EINTR/EAGAIN",
"No test reads a stream; the order and size of read results are decided by the operating system.",
[S+"sml_transport.c"],[("start-sequence matcher","sml_transport_read"),("retry loop around select/read","sml_read")],["sml_transport_read return value and buffer, bytes consumed from the descriptor"]),
P("C12","The frame reader respects the caller's buffer and fails cleanly",
"The transport reader never writes outside the buffer size it was given and never reports more bytes than that. Every complete frame shorter than the buffer is returned; at end of input, on a read error, on an unknown escape sequence, or when the frame does not fit, the read returns 0 after a finite number of reads and nothing that is not a complete frame is ever returned.",
["inputs","fault_sequences","configurations"],"all buffer sizes from 0 to beyond the frame size for all frame sizes and malformed frames up to a bound, end of input or error at every read",
"No test covers the transport layer; overruns depend on the exact relation of frame size, buffer size and failure position.",
[S+"sml_transport.c"],[("length checks","sml_transport_read"),("EOF and error handling","sml_read")],["sml_transport_read"]),
P("C13","The listener hands over every frame once, in order, until input ends",
"The listener calls its receiver once for every complete frame in the stream, in order, with exactly the frame's bytes and length, whatever lies between frames, and returns when the input ends or a frame is malformed or too long. Nothing is delivered twice, merged, or invented, and the receiver may use or overwrite the buffer during the call without affecting later deliveries.",
["inputs","schedules","histories"],"all sequences of frames, noise and malformed frames up to a depth, under all bounded read splits and interruptions",
"No test runs the listener; delivery history over several frames and read outcomes is a combinatorial space.",
[S+"sml_transport.c"],[("listen loop","sml_transport_listen")],["receiver callback arguments"]),
P("C14","A transport write emits one complete valid frame or reports failure",
"Writing a file to a descriptor emits the start sequence, the encoded messages, zero padding to a multiple of four, and the end sequence with the padding count and the checksum of everything before it. The call returns the number of bytes of the frame exactly when the descriptor accepted the whole frame, and 0 otherwise, also when memory runs out at any point; what was emitted is then at most a beginning of that frame, and the file can be written again.",
["inputs","fault_sequences"],"all files up to a bound with every padding amount and size across buffer growth, every result of the write call (full, every short count, error), every allocation failing",
"No test writes a frame; padding residues, sizes and write faults are unsampled.",
[S+"sml_transport.c"],[("padding and end sequence","sml_transport_write"),("comparison of write result","sml_transport_write")],["bytes passed to the descriptor, return value"]),
P("C15","A frame written by the transport layer reads back as the same file",
"For every file built or parsed, the frame that the transport writer emits is returned unchanged by the transport reader, also between other frames, and parsing its payload gives the same messages as were written.",
["inputs","histories"],"all files over message kinds, payload sizes of every residue and payload contents including bytes of the transport control sequences",
"No test connects writer and reader; interactions depend on payload bytes and alignment.",
[S+"sml_transport.c",S+"sml_file.c"],[("framing in both directions","sml_transport_write / sml_transport_read")],["frame bytes, parsed messages"]),
P("C16","Any history of building, writing, parsing and freeing is leak-free",
"Whatever sequence of public calls a program makes to build, extend, write, rewrite, parse and finally free files and messages, freeing the top-level objects releases every allocation exactly once, no freed object is used, and writing never changes the values of the objects written.",
["histories","programs"],"all operation sequences up to a depth over files and messages of every kind, including half-built objects and failed parses",
"Tests free single objects after one operation; leaks by repeated operations are invisible to them.",
[S+"*.c"],[("*_free functions","all sml_*.c"),("checksum ownership","sml_message_write")],["allocation balance"]),
P("C17","Meter workarounds apply exactly to the affected meters",
"Within a value list, once an entry has named a DZG meter of an affected serial range, the active-power values of the following entries that were sent as integers of at most two bytes are delivered as unsigned; all other values, meters, lists and orders are unaffected. A time sent as bare four-byte unsigned is delivered as a seconds index, and a time sent as list of three is accepted with its value ignored; all surrounding fields keep their values.",
["inputs","histories"],"all serial numbers around the range limits, all entry orders up to a depth, all value types and lengths, all single-byte deviations of the identifying fields",
"No test covers the workarounds; they are stateful along the list and keyed on exact bytes and ranges.",
[S+"sml_list.c",S+"sml_time.c"],[("serial detection and per-list state","detect_buggy_dzg_dvs74, sml_list_parse"),("bare time and list time","sml_time_parse")],["sml_file_parse, sml_list_parse: entries' values"],[("workarounds","per-list flag","sml_list_parse")]),
P("C18","Calls on separate objects never influence each other",
"The result of parsing, writing, reading or converting depends only on its own arguments: neither calls made before it in the same process, nor calls running at the same time in another thread on other objects, change it, at whatever points the threads are interleaved.",
["schedules","histories"],"all sequences of up to three operations and all interleavings of two threads' operations with up to two preemptions (at basic blocks) or three (at accesses to static storage that the library writes)",
"Tests run single-threaded in one fixed order; interference needs particular schedules or histories.",
[S+"*.c"],[("no mutable static state; per-call buffers on the stack or heap","all functions")],["results of each operation compared with a fresh run"]),
P("C19","Value conversion to number and to text is exact",
"Converting an integer value of any type gives the number it holds, correctly rounded to a double, and 0 for values that are not integers. Converting an octet string gives its bytes as lower-case hex pairs each followed by a blank, or in mixed mode the leading visible characters (above blank, up to 'z') literally and everything from the first other byte on in hex; for an absent or empty string no text is returned.",
["inputs"],"all 8- and 16-bit integers and boundary patterns of wider ones, all type bytes, all strings of up to two bytes and class strings up to a length",
"No test calls the conversions.",
[S+"sml_value.c"],[("type switch","sml_value_to_double"),("mixed/hex state","sml_value_to_strhex")],["return values"]),
P("C20","Octet strings compare equal exactly when their bytes are equal",
"Comparing two octet strings gives 0 if and only if they have the same length and the same bytes. Comparing with a hex spelling gives 0 exactly when the string consists of the spelled bytes, for upper and lower case digits, and never for a spelling that is not a whole number of bytes.",
["inputs"],"all pairs of strings over an alphabet up to a length, all hex spellings up to a length",
"Tests compare three strings.",
[S+"sml_octet_string.c"],[("length then content comparison","sml_octet_string_cmp, sml_octet_string_cmp_with_hex"),("hex digit conversion","ctoi/c2ptoi")],["return values"]),
P("C21","The server tool prints every reading of the stream faithfully",
"For every stream, the command line tool prints one line for each value-list entry that has a value and a full object identifier, in order: the identifier, the number with its decimal scaling applied (exactly up to 2^50, beyond that to the precision of a double) and its unit, or the text, hex or boolean form of the value. Entries without them are skipped, no input crashes it, and the single-shot option stops after the first value list.",
["inputs","histories"],"all entries over alphabets of identifiers, value types, scalers (all 256), units (all 256) and optional fields, in sequences of messages and frames",
"The tool has no tests.",
["examples/sml_server.c","examples/unit.h",S+"sml_value.c"],[("entry loop and formats","transport_receiver"),("unit table","dlms_get_unit")],["standard output and exit status of sml_server"]),
P("C22","Containers keep every element, in order, at any count",
"Sequences, value lists, trees, tree paths and files report exactly the number of elements that were added or parsed and return each of them at its position, no matter how many there are, and freeing the container frees each element exactly once.",
["inputs","histories"],"all counts up to 70000 for each container kind, all interleavings of additions to two containers up to a depth",
"Tests add at most two elements.",
[S+"sml_list.c",S+"sml_tree.c",S+"sml_file.c"],[("append by reallocation","sml_sequence_add, sml_tree_add_tree, sml_tree_path_add_path_entry, sml_file_add_message")],["container fields"]),
P("C23","Every new message gets a fresh transaction id and holds no resource",
"Each newly created message carries a 16-byte transaction id drawn anew from the system's generator (version and variant bits set where the library sets them), in the build with and without the uuid library, and creating and freeing any number of messages leaves no file descriptor or memory behind.",
["histories","configurations"],"histories of thousands of message creations, all single-byte outputs of the generator, both build configurations",
"One test compares two ids in one configuration.",
[S+"sml_octet_string.c",S+"sml_message.c"],[("uuid generation","sml_octet_string_generate_uuid, sml_message_init")],["transaction_id, open descriptors"]),
P("C24","Every element parser consumes exactly one element or reports an error",
"For every public element parser and every input, the parser either returns the element's value with the position moved exactly past the element and no error, or an absent optional with the position moved past its one-byte marker, or it flags an error on the buffer. A complete, well-formed element is always accepted, even when it ends exactly at the end of the buffer; success is never reported on an incomplete or mistyped one.",
["inputs"],"the whole decision tree of every element parser over a token alphabet up to a depth, every cut position",
"Tests feed each element parser one or two valid inputs inside a much larger zeroed buffer.",
[S+"sml_octet_string.c",S+"sml_number.c",S+"sml_boolean.c",S+"sml_time.c",S+"sml_value.c",S+"sml_status.c",S+"sml_list.c",S+"sml_tree.c",S+"sml_get_profile_pack_response.c"],
[("position and error flag handling","all *_parse")],["returned object, buf->cursor, sml_buf_has_errors"]),
P("C25","Work and memory stay proportional to the data, whatever it claims",
"Parsing, writing and freeing files, computing checksums, converting and comparing octet strings and reading or writing frames take a number of steps and an amount of memory at most proportional to the size of the data handed in, and a bounded stack. What the data claims (declared lengths and counts far beyond the bytes that follow), how many elements or messages it has, how deeply it nests and in which way it is damaged never makes the cost grow faster. While a reader waits for bytes it sleeps: it does not poll or read over and over.",
["inputs","schedules"],"all families of repeated elements, messages, frames and bytes up to 200 KB (thorough 3 MB), all headers of all message kinds claiming any number around the powers of two",
"Tests use inputs of a few dozen bytes, on which a cost that grows with the square of the input or with a claimed length does not show.",
[S+"*.c"],[("one pass over the input, lists extended at their end","sml_sequence_parse, sml_list_parse, sml_tree_parse, sml_file_parse"),("lengths checked before they are used","sml_shared.c, sml_octet_string.c"),("waiting in poll","sml_read")],["basic blocks executed, bytes allocated, stack depth, system calls"]),
P("C26","The printing functions show exactly what they are given",
"sml_hexdump prints every byte it is given, in order and none else, as two upper-case hex digits, eight to a line. sml_file_print prints the number of messages and the number of bytes read or written, then one line for each message, in order, with its kind in hex. Neither changes what it prints.",
["inputs"],"all strings of up to two bytes, all lengths up to 600 and selected ones up to 70000, all sequences of up to three message kinds (built, written, parsed, cut, damaged), all counts up to 300 and up to 40000",
"Nothing that the library prints is tested.",
[S+"sml_shared.c",S+"sml_file.c"],[("byte and line loop","sml_hexdump"),("message loop","sml_file_print")],["standard output"]),
P("C27","A parsed file tells whether all of its input was understood",
"After parsing a file, the error flag of its buffer is set if and only if parsing stopped at a message that cannot be read (malformed or cut off); otherwise the buffer's position is at the end of the input. Messages dropped for their checksum, padding and unusual encodings do not set it. The position is never beyond the input.",
["inputs","crash_points"],"all structural deviations of messages of every kind, all byte replacements, all cuts, all sequences of intact, dropped and malformed messages up to a depth",
"The flag is how a caller tells a short file from a damaged one; tests look at it after a handful of single elements only.",
[S+"sml_file.c",S+"sml_message.c",S+"sml_shared.c"],[("sticky error flag","every *_parse"),("end of the message loop","sml_file_parse")],["file->buf: sml_buf_has_errors, cursor"]),
P("C28","Objects own their data",
"Whatever is parsed, built or converted keeps its value when the bytes it was made from are overwritten or freed, when what was written from it is overwritten, and when any other object, also one made from the same bytes, is changed or freed. Bytes already written keep their value when the object is freed, and a message may be moved from one file to another and outlive the first.",
["inputs","histories"],"every combination of field states of every structure, all leaf values, two objects from the same bytes in every order of freeing, every subset of a file's messages moved",
"Tests keep the input alive and look at one object at a time; sharing shows only after the source or a sibling is gone.",
[S+"*.c"],[("copying of contents","sml_octet_string_init, sml_number_parse, sml_file_parse, sml_value_to_strhex")],["public structs after the source is overwritten or freed"]),
P("C29","What is dropped is reported on standard error, and nothing else is written",
"Parsing, building, writing, converting, freeing, reading and listening never write to standard output, which belongs to the application. The parser writes at least one line to standard error for every message it drops for its checksum, one when it stops before the end of its input, and one when it ignores the value of a time sent as a list; the frame reader writes one for a buffer too small for a start sequence, a read error and an escape sequence other than the end. Every such line begins with \"libsml: \" and ends with a newline. Where everything is delivered nothing is written to standard error.",
["inputs","fault_sequences"],"all structural deviations of messages of every kind, all byte replacements, all sequences of intact, dropped and malformed messages up to a depth, all combinations of field states, streams with every kind of end",
"Tests never look at the diagnostics; a message lost without a trace, or a reading mixed with a warning on standard output, passes them.",
[S+"sml_file.c",S+"sml_message.c",S+"sml_time.c",S+"sml_transport.c"],[("warnings","sml_file_parse, sml_message_parse, sml_time_parse, sml_read, sml_transport_read")],["standard output, standard error"]),
P("C30","A buffer keeps what is written, in order, and gives it back in order",
"Any sequence of element writes (every element with a public writer, bare absent markers, headers with contents put in by hand) into one buffer of any size appends exactly the encodings of the elements at the position, growing the buffer when needed, and never alters what is before the position; setting the position back and writing again replaces what follows. Reading from any element on, by its parser or by the header functions, gives the elements in the order written and moves exactly past each; the questions about the next byte move nothing. At the end of the buffer every question reports an error, no function reads or writes beyond it, and an error flag once set is not cleared by reading on.",
["histories"],"all sequences of writes, room requests, rewinds and reads up to a depth, for buffers of many sizes and all positions relative to their end; all short buffers with all sequences of questions",
"Tests write one element into a large fresh buffer; growth, rewinding and what stays of earlier elements depend on the sequence and on where the end falls.",
[S+"sml_shared.c",S+"*.c"],[("buffer functions","sml_buf_reserve, sml_buf_set_type_and_length, sml_buf_get_next_length, sml_buf_optional_write"),("element writers","sml_*_write")],["buffer contents, position and error flag"]),
P("C31","A frame is handed on, and its readings printed, before more input is awaited",
"The reader returns a frame, and the listener hands it to its receiver, as soon as its last byte has arrived: no further question for input (read or wait) comes in between. Whenever the command line tool asks for input, and so also when it is ended by a signal at that moment, the readings of exactly those frames that have arrived completely are on its output.",
["schedules","crash_points"],"all schedules of answers of the system up to a number of unusual ones; every question for input of the tool on all streams of a bounded space, as observation point and as crash point",
"Tests give the library complete data and look at the result afterwards; when something is handed on while the input stays open is never observed.",
[S+"sml_transport.c","examples/sml_server.c"],[("listener","sml_transport_listen, sml_transport_read, sml_read"),("tool","transport_receiver")],["order of receiver calls and system calls","standard output of the tool at each of its questions"]),
]
for p in L:
    assert len(p["title"])<=80,(p["id"],len(p["title"]))
with open("/verif/properties.jsonl","w") as f:
    for p in L: f.write(json.dumps(p,ensure_ascii=False)+"\n")
print(len(L))
