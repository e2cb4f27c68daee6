// Reference model of the SML binary format, independent of the library: a
// generic value tree, an encoder, a decoder with the documented leniencies of
// libsml, and the two bridges to the library's structures (extract, build).
#pragma once
#include <stdint.h>
#include <functional>
#include <string>
#include <vector>
#include <sml/sml_file.h>
#include <sml/sml_transport.h>
#include <sml/sml_crc16.h>
#include <sml/sml_value.h>

namespace sm {

enum Kind : uint8_t {
	OCT, U8, U16, U32, U64, I8, I16, I32, I64, BOOL, STATUS, VALUE, TIME, PATH, TREE, PPV,
	PERIOD, TUPEL, VLIST, VLE, HDRSEQ, HDR, PERSEQ, PER, VENTSEQ, VENT, PSEQ, OBJL, BODY, MSG,
	NKINDS
};
extern const char *kindname[];

struct Node {
	Kind k = OCT;
	bool null = true;
	uint8_t vt = 0;  // VALUE, STATUS: SML type (0x00 octets, 0x40 bool, 0x50 int, 0x60 unsigned)
	uint8_t w = 0;   // VALUE, STATUS: width in bytes
	uint64_t n = 0;  // numbers (sign-extended to 64 bit), bool 0/1, PPV and BODY tag
	std::string s;   // octets
	std::vector<Node> c;
	Node() {}
	explicit Node(Kind k) : k(k) {}
	bool operator==(const Node &o) const;
	bool operator!=(const Node &o) const { return !(*this == o); }
};
std::string dump(const Node &n);

inline bool isnum(Kind k) { return k >= U8 && k <= I64; }
inline int numwidth(Kind k) { return 1 << ((k - U8) & 3); }
inline bool numsigned(Kind k) { return k >= I8; }
extern const uint32_t tags[14];
extern const char *tagname[14];
const std::vector<Kind> *bodyfields(uint32_t tag); // 0: undefined
const std::vector<Kind> &seqfields(Kind k);        // VLE, HDR, PER, VENT, PERIOD, TUPEL
Kind elemkind(Kind seq);                           // PATH, VLIST, HDRSEQ...

// ---- making nodes
Node null(Kind k);
Node oct(const std::string &s);
Node num(Kind k, uint64_t v);
Node boolean(bool b);
Node status(uint64_t v, int w);
Node vint(bool sign, uint64_t v, int w);
Node voct(const std::string &s);
Node vbool(bool b);
Node time(uint8_t tag, uint32_t v);
Node seq(Kind k, const std::vector<Node> &c);
Node list(Kind k, const std::vector<Node> &c); // VLE, HDR... in field order
Node tree(const std::string &name, const Node &ppv, const std::vector<Node> &children);
Node ppv(int tag, const Node &v);
Node msg(const std::string &tid, uint32_t tag, const std::vector<Node> &fields);
Node vle(const std::string &name, const Node &value);

// a plain present value of a kind; variant: different contents
Node sample(Kind k, int variant);
Node samplemsg(uint32_t tag, int variant);

// ---- wire trees
struct W {
	uint8_t type = 0;      // SML type nibble
	bool list = false;
	bool raw = false;      // data is emitted as it is, without a header
	std::string data;
	std::vector<W> kids;
	int tlx = 0;           // superfluous leading TL bytes
	long delta = 0;        // error in the declared length or count
	Kind k = NKINDS;       // what it stands for
	bool crc = false;      // the checksum field of a message: computed when emitted
	uint16_t crcxor = 0;
	bool kermit = false;
};
// encoding choices of lower(); the defaults give the canonical encoding
struct Enc {
	virtual ~Enc() {}
	virtual int intlen(const Node &, int minimal, int full) { (void)minimal; return full; }
	virtual int tlx(Kind) { return 0; }
	virtual int timeform(const Node &) { return 0; } // 1: bare unsigned, 2: list of three
	virtual uint8_t truebyte() { return 0xff; }
};
W lower(const Node &n, Enc &e);
W lower(const Node &n);
std::string tl(uint8_t type, uint64_t len, int extra = 0); // minimal header, len as in the property
void emit(const W &w, std::string &out);
std::string encode(const Node &n);
std::string encodeall(const std::vector<Node> &v);
Node asparsed(const Node &n, const W &w); // (identity except for widths: see lower())

// every W of the tree, in order, with its parent
void walk(W &w, const std::function<void(W &, W *parent, int idx)> &f);

// ---- decoding
struct Dec {
	const uint8_t *p;
	size_t n, i = 0;
	bool err = false;
	bool eof = false; // the error may be due to the end of the input
	bool fuzzy = false; // something the property leaves open was met
	Dec(const void *p, size_t n) : p((const uint8_t *)p), n(n) {}
	Dec(const std::string &s) : p((const uint8_t *)s.data()), n(s.size()) {}
};
Node decode(Dec &d, Kind k, int depth = 1);
struct FileResult {
	std::vector<Node> msgs;
	bool stopped = false; // parsing stopped at an error
	bool eof = false;     // which more input may have avoided
	size_t at = 0;
	int dropped = 0;
};
FileResult decodefile(const void *p, size_t n);
inline FileResult decodefile(const std::string &s) { return decodefile(s.data(), s.size()); }

uint16_t crc_x25(const void *p, size_t n);     // plain CRC-16/X.25
uint16_t crc_sml(const void *p, size_t n);     // as transmitted: bytes swapped
uint16_t crc_kermit(const void *p, size_t n);

// ---- library structures
Node ext(const octet_string *);
Node ext(const sml_value *);
Node ext(const sml_status *);
Node ext(const sml_time *);
Node ext(const sml_tree *);
Node ext(const sml_tree_path *);
Node ext(const sml_proc_par_value *);
Node ext(const sml_period_entry *);
Node ext(const sml_tupel_entry *);
Node ext(const sml_list *); // whole list
Node ext(const sml_message_body *);
Node ext(const sml_message *);
// where set, every octet string and number the extraction visits is recorded
typedef std::vector<std::pair<uintptr_t, size_t>> Leaves;
extern Leaves *leaflog;
Node extnum(const void *p, Kind k);
Node extbool(const sml_boolean *b);
Node extany(Kind k, void *p);
std::vector<Node> ext(const sml_file *);
void *build(const Node &n); // by public constructors
sml_message *buildmsg(const Node &n);
void freeany(Kind k, void *p);
void *parseany(Kind k, sml_buffer *buf); // public element parser
bool hasparser(Kind k);
void writeany(Kind k, void *p, sml_buffer *buf);

// empty octet strings share the encoding of absent ones
Node normempty(const Node &n);
std::string dumpall(const std::vector<Node> &v);
} // namespace sm
