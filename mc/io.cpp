#include "io.hpp"
#include <stdarg.h>
#include <sys/resource.h>
namespace io {
In in;
Out out;
int pipefd(int want) {
	int p[2];
	mc::NoLib nl;
	if (pipe(p))
		mc::fail("internal: no pipe");
	close(p[1]);
	int fd = p[0];
	if (want >= 0 && want != fd) {
		struct rlimit l;
		if (!getrlimit(RLIMIT_NOFILE, &l) && l.rlim_cur <= (rlim_t)want) {
			l.rlim_cur = l.rlim_max < 65536 ? l.rlim_max : 65536;
			setrlimit(RLIMIT_NOFILE, &l);
		}
		if (dup2(fd, want) != want) {
			close(fd);
			return -1; // no descriptors of this number here
		}
		close(fd);
		fd = want;
	}
	return fd;
}
static void tr(std::string &t, const std::string &s) {
	if (t.size() < 600)
		t += s + " ";
}
static ssize_t err(int e, const char *what) {
	tr(in.trace, mc::strf("%s:%s", what, e == EINTR ? "EINTR" : e == EAGAIN ? "EAGAIN" : e == EIO ? "EIO" : "E?"));
	errno = e;
	return -1;
}
static void count() {
	if (in.ended && ++in.after > 200)
		mc::fail("does not return after the end of the input or an error: %s", in.trace.c_str());
	if (++in.calls > 2000000)
		mc::fail("too many calls on the descriptor");
	if (in.asked)
		in.asked();
}
static ssize_t doread(void *b, size_t n) {
	mc::NoLib nl;
	count();
	if (n == 0)
		return 0;
	size_t left = in.data.size() - in.pos;
	if (in.evcount > 0 && (long)in.pos == in.evpos && in.evkind > 0) {
		in.evcount--;
		if (in.evkind != EINTR && in.evkind != EAGAIN)
			in.ended = true;
		return err(in.evkind, "read");
	}
	if (in.every && in.pending) {
		in.pending = false;
		return err(in.every, "read");
	}
	in.pending = true;
	size_t m = n < left ? n : left;
	if (in.ended)
		m = 0;
	if (m == 0) {
		if (in.policy == DEV && !in.ended) {
			int k = choosed(3);
			if (k)
				return err(k == 1 ? EINTR : EAGAIN, "read");
		}
		in.ended = true;
		if (in.err_at_end)
			return err(in.err_at_end, "read");
		tr(in.trace, "read:end");
		return 0;
	}
	switch (in.policy) {
	case PLAIN: break;
	case CAP: if (m > in.cap) m = in.cap; break;
	case CHUNK: m -= choose((int)(m > 8 ? 8 : m)); break;
	case DEV: {
		int shorts = m > 8 ? 8 : (int)m - 1;
		int k = choosed(1 + 2 + (in.devend ? 2 : 0) + shorts);
		if (k == 0)
			break;
		if (k == 1 || k == 2)
			return err(k == 1 ? EINTR : EAGAIN, "read");
		k -= 3;
		if (in.devend) {
			if (k < 2) {
				in.ended = true;
				if (k == 0)
					return err(EIO, "read");
				tr(in.trace, "read:end");
				return 0;
			}
			k -= 2;
		}
		m -= k + 1;
		break;
	}
	}
	memcpy(b, in.data.data() + in.pos, m);
	in.pos += m;
	in.data_at = in.calls;
	tr(in.trace, mc::strf("read:%zu/%zu", m, n));
	return (ssize_t)m;
}
// a wait for the descriptor; -1: interrupted, 0: the time given for it is over
static int dowait(bool timed) {
	mc::NoLib nl;
	count();
	if (in.evcount > 0 && (long)in.pos == in.evpos && in.evkind == PAUSE && timed) {
		in.evcount--;
		tr(in.trace, "wait:timeout");
		return 0;
	}
	if (in.evcount > 0 && (long)in.pos == in.evpos && in.evkind == -1) {
		in.evcount--;
		tr(in.trace, "wait:EINTR");
		errno = EINTR;
		return -1;
	}
	if (in.policy == DEV && !in.ended)
		switch (choosed(timed ? 3 : 2)) {
		case 1:
			tr(in.trace, "wait:EINTR");
			errno = EINTR;
			return -1;
		case 2:
			tr(in.trace, "wait:timeout");
			return 0;
		}
	return 1;
}
static ssize_t dowrite(const void *b, size_t n) {
	mc::NoLib nl;
	if (++out.calls > 100000)
		mc::fail("too many writes");
	size_t m = n;
	if (out.policy == DEV && n) {
		static const int errs[] = {EINTR, EAGAIN, EPIPE, ENOSPC, EIO, EBADF};
		int ne = out.errors ? 6 : 0;
		int shorts = n > 300 ? 40 : (int)n;
		int k = choosed(1 + ne + shorts);
		if (k) {
			out.unusual = true;
			k--;
			if (k < ne) {
				errno = errs[k];
				tr(out.trace, mc::strf("write:E%d", errs[k]));
				return -1;
			}
			k -= ne;
			if (n <= 300)
				m = k; // 0..n-1
			else
				m = k < 17 ? k : k < 20 ? n / 4 * (k - 16) : n - 40 + k;
		}
	} else if (out.policy == CAP && m > out.cap) {
		m = out.cap;
		out.unusual = true;
	}
	tr(out.trace, mc::strf("write:%zu/%zu", m, n));
	out.data.append((const char *)b, m);
	return (ssize_t)m;
}
} // namespace io
using namespace io;
extern "C" {
ssize_t read(int fd, void *b, size_t n) {
	if (fd >= 0 && fd == in.fd)
		return doread(b, n);
	return syscall(SYS_read, fd, b, n);
}
ssize_t readv(int fd, const struct iovec *v, int c) {
	if (fd >= 0 && fd == in.fd) {
		for (int i = 0; i < c; i++)
			if (v[i].iov_len)
				return doread(v[i].iov_base, v[i].iov_len);
		return 0;
	}
	return syscall(SYS_readv, fd, v, c);
}
ssize_t write(int fd, const void *b, size_t n) {
	if (fd >= 0 && fd == out.fd)
		return dowrite(b, n);
	return syscall(SYS_write, fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
	if (fd >= 0 && fd == out.fd) {
		mc::NoLib nl;
		std::string s;
		for (int i = 0; i < c; i++)
			s.append((const char *)v[i].iov_base, v[i].iov_len);
		return dowrite(s.data(), s.size());
	}
	return syscall(SYS_writev, fd, v, c);
}
static int sel(int nfds, fd_set *r, fd_set *w, fd_set *e, bool timed) {
	if (nfds <= in.fd || !r || !FD_ISSET(in.fd, r)) {
		if (!timed)
			mc::fail("waits forever: the descriptor is not in the set waited for (%s)", in.trace.c_str());
		if (r)
			FD_ZERO(r);
		if (w)
			FD_ZERO(w);
		if (e)
			FD_ZERO(e);
		count();
		return 0;
	}
	int k = dowait(timed);
	if (k < 0)
		return k;
	if (k == 0) {
		FD_ZERO(r);
		if (w)
			FD_ZERO(w);
		if (e)
			FD_ZERO(e);
		return 0;
	}
	FD_ZERO(r);
	FD_SET(in.fd, r);
	if (w)
		FD_ZERO(w);
	if (e)
		FD_ZERO(e);
	return 1;
}
int select(int nfds, fd_set *r, fd_set *w, fd_set *e, struct timeval *t) {
	if (in.fd >= 0)
		return sel(nfds, r, w, e, t != 0);
	return (int)syscall(SYS_select, nfds, r, w, e, t);
}
int pselect(int nfds, fd_set *r, fd_set *w, fd_set *e, const struct timespec *t, const sigset_t *s) {
	if (in.fd >= 0)
		return sel(nfds, r, w, e, t != 0);
	(void)s;
	return (int)syscall(SYS_pselect6, nfds, r, w, e, t, (void *)0);
}
static short events(short ev) {
	ev &= POLLIN | POLLRDNORM;
	if (!in.hup)
		return ev;
	if (!in.ended && in.pos < in.data.size())
		return in.hup == 2 ? ev | POLLHUP : ev;
	if (in.err_at_end == EBADF)
		return in.hup == 2 ? ev | POLLERR : POLLNVAL;
	if (in.err_at_end)
		return in.hup == 1 ? POLLERR : in.hup == 2 ? ev | POLLERR : POLLERR | POLLHUP;
	return in.hup == 1 ? POLLHUP : in.hup == 2 ? ev | POLLHUP : ev | POLLHUP | POLLERR;
}
static int pol(struct pollfd *f, nfds_t n, bool timed) {
	for (nfds_t i = 0; i < n; i++)
		if (f[i].fd == in.fd) {
			int k = dowait(timed);
			if (k < 0)
				return k; // revents are left as they are
			if (k == 0) {
				for (i = 0; i < n; i++)
					f[i].revents = 0;
				return 0;
			}
		}
	for (nfds_t i = 0; i < n; i++) {
		f[i].revents = 0;
		if (f[i].fd == in.fd) {
			f[i].revents = events(f[i].events);
		} else if (f[i].fd >= 0 && f[i].fd == out.fd)
			f[i].revents = f[i].events & (POLLOUT | POLLWRNORM);
	}
	int c = 0;
	for (nfds_t i = 0; i < n; i++)
		c += f[i].revents != 0;
	return c;
}
int poll(struct pollfd *f, nfds_t n, int t) {
	for (nfds_t i = 0; i < n; i++)
		if (f[i].fd >= 0 && (f[i].fd == in.fd || f[i].fd == out.fd))
			return pol(f, n, t >= 0);
	return (int)syscall(SYS_poll, f, n, t);
}
int ppoll(struct pollfd *f, nfds_t n, const struct timespec *t, const sigset_t *s) {
	for (nfds_t i = 0; i < n; i++)
		if (f[i].fd >= 0 && (f[i].fd == in.fd || f[i].fd == out.fd))
			return pol(f, n, t != 0);
	return (int)syscall(SYS_ppoll, f, n, t, s, 8);
}
}
