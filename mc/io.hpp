// The environment of a descriptor: reads, waits and writes of the library on
// it are answered by the explorer. Everything else goes to the system.
#pragma once
#include "common.hpp"
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <sys/select.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

namespace io {
enum Policy {
	PLAIN, // as much as asked for, or as is left
	DEV,   // any answer a system may give; each unusual one costs a deviation
	CHUNK, // every number of bytes, freely
	CAP,   // at most `cap` bytes
};
// nothing arrives for so long that a wait with a time limit ends without anything to read
enum { PAUSE = -2 };
struct In {
	int fd = -1;
	std::string data;
	size_t pos = 0;
	Policy policy = PLAIN;
	size_t cap = 1;
	int err_at_end = 0;    // errno instead of an end of input
	long evpos = -1;       // before this byte is delivered,
	int evkind = 0, evcount = 0; // this answer comes so many times (errno; -1: wait interrupted; PAUSE)
	// how poll() reports the end or an error (0: as input; 1: POLLHUP or POLLERR alone, as a
	// pipe does; 2: along with input, and POLLHUP from the start; 3: with everything else)
	int hup = 0;
	int every = 0;         // with every read: this errno comes first
	bool pending = true;
	long calls = 0, after = 0, interrupts = 0;
	bool ended = false;    // the end or an error has been reported
	bool devend = false;   // DEV: end and errors in the middle, too
	long data_at = 0;      // the number of the call that delivered the last bytes
	void (*asked)() = 0;   // called before every wait and read
	std::string trace;
};
struct Out {
	int fd = -1;
	std::string data;
	Policy policy = PLAIN;
	size_t cap = 1;
	bool errors = true;
	long calls = 0;
	bool unusual = false;
	std::string trace;
};
extern In in;
extern Out out;
int pipefd(int want = -1); // a descriptor of this process (an empty pipe, no writer)
} // namespace io
