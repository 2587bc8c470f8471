// Simulated network: stream sockets with bounded buffers, virtual-time delays, resets and partial transfers.
#include "rt.h"

#include <errno.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <string.h>
#include <sys/socket.h>
#include <algorithm>
#include <deque>
#include <memory>

#define EXPORT extern "C" __attribute__((used, visibility("default")))

namespace sim {
namespace net {
uint32_t fail_socket, fail_bind, fail_listen, fail_accept, fail_connect, fail_send, fail_recv, fail_misc, reset_rate;
bool short_io = false;
bool fd_zero = false; // the next socket gets the lowest of descriptors 0 to 2 that is free (a process started with these closed)
bool low_free = false; // not only descriptor 0 was closed at the start, but 1 and 2 too

uint64_t stdin_touched = 0;

struct Chan { // one direction
	std::deque<std::pair<uint64_t, std::string>> q; // (arrival, bytes)
	size_t queued = 0;
	uint64_t total = 0; // bytes ever accepted from the sender
	bool fin = false;
	uint64_t fin_at = 0;
	bool reader_gone = false;
};
struct Addr {
	int family = 0;
	uint8_t ip[16] = {};
	uint16_t port = 0;
};
struct Conn {
	Chan c[2]; // c[0]: side 0 -> side 1
	bool reset = false;
	uint64_t established_at = 0;
	Addr a[2];
};
typedef std::shared_ptr<Conn> CP;
struct Sock {
	int family = AF_INET;
	bool nonblock = false, cloexec = false;
	bool bound = false, listening = false, connecting = false, connected = false, shut_wr = false, shut_rd = false;
	bool v6only = false, reuse_addr = false, reuse_port = false, nodelay = false, keepalive = false;
	int so_error = 0;
	Addr local, peer;
	CP conn;
	int side = 0;
	std::deque<std::pair<CP, int>> backlog;
	uint64_t ready_at = 0;
	bool peer_end = false; // a handle the scenario drives, not a descriptor of the library
};
static std::map<int, std::shared_ptr<Sock>> socks; // library descriptors
static std::map<int, std::shared_ptr<Sock>> peers; // scenario handles
static int next_fd = 3000, next_h = 1, next_port = 40000;
static const size_t BUF = 512;
static int low_fd() {
	for (int i = 0; i < (low_free ? 3 : 1); i++) {
		if (!socks.count(i)) {
			return i;
		}
	}
	return 3;
}

void reset() {
	socks.clear();
	peers.clear();
	fail_socket = fail_bind = fail_listen = fail_accept = fail_connect = fail_send = fail_recv = fail_misc = reset_rate = 0;
	short_io = false;
	fd_zero = low_free = false;
	stdin_touched = 0;
}
int open_sockets() { return socks.size(); }
std::string open_desc() {
	std::string s;
	for (auto &k : socks) {
		s += " socket" + std::to_string(k.first);
	}
	return s;
}
bool is_sock(int fd) { return socks.count(fd) != 0 || (fd >= 3000 && fd < next_fd); }
static int fail(int e) {
	errno = e;
	return -1;
}
static Sock *S(int fd, const char *op) {
	auto it = socks.find(fd);
	if (it == socks.end()) {
		if (fd >= 3000 && fd < next_fd) {
			violation("bad-descriptor", "%s on socket %d after it was closed", op, fd);
		}
		return nullptr;
	}
	return it->second.get();
}
static bool any_addr(const Addr &a) {
	static const uint8_t z[16] = {};
	return memcmp(a.ip, z, a.family == AF_INET ? 4 : 16) == 0;
}
static bool loop_addr(const Addr &a) {
	if (a.family == AF_INET) {
		return a.ip[0] == 127;
	}
	static const uint8_t l[16] = { 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1 };
	static const uint8_t m[12] = { 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff };
	return memcmp(a.ip, l, 16) == 0 || (memcmp(a.ip, m, 12) == 0 && a.ip[12] == 127);
}
static std::shared_ptr<Sock> listener(uint16_t port, bool via_loopback, bool v6) {
	for (auto *m : { &socks, &peers }) {
		for (auto &k : *m) {
			Sock &s = *k.second;
			if (!s.listening || s.local.port != port) {
				continue;
			}
			if (s.family == AF_INET && v6) {
				continue;
			}
			if (any_addr(s.local) || (loop_addr(s.local) == via_loopback)) {
				return k.second;
			}
		}
	}
	return nullptr;
}
bool find_listener(uint16_t port, SockInfo *o) {
	for (auto &k : socks) {
		Sock &s = *k.second;
		if (s.listening && s.local.port == port) {
			o->fd = k.first;
			o->listening = true;
			memcpy(o->addr, s.local.ip, 16);
			o->family = s.family;
			o->port = port;
			o->bound = s.bound;
			o->v6only = s.v6only;
			return true;
		}
	}
	return false;
}
bool reachable_from_outside(uint16_t port) { return listener(port, false, false) || listener(port, false, true); }
bool reachable_from_loopback(uint16_t port) { return listener(port, true, false) || listener(port, true, true); }

static uint64_t delay() {
	uint32_t d = choose(ST_NET, 4);
	if (d) {
		fault_fired(F_NET_DELAY);
	}
	return d * 1000000ULL;
}
static CP make_conn(Sock &cl, Sock &srv) {
	CP c = std::make_shared<Conn>();
	c->established_at = now_ns() + delay();
	c->a[0] = cl.local;
	c->a[1] = srv.local;
	cl.conn = c;
	cl.side = 0;
	srv.backlog.push_back({ c, 1 });
	return c;
}
int peer_connect(const uint8_t *ip4, uint16_t port, bool via_loopback) {
	(void)ip4;
	auto l = listener(port, via_loopback, false);
	if (!l) {
		return -1;
	}
	auto p = std::make_shared<Sock>();
	p->peer_end = true;
	p->family = AF_INET;
	p->local.family = AF_INET;
	static const uint8_t lo[4] = { 127, 0, 0, 1 }, ex[4] = { 10, 0, 0, 77 };
	memcpy(p->local.ip, via_loopback ? lo : ex, 4);
	p->local.port = next_port++;
	make_conn(*p, *l);
	p->connected = true;
	int h = next_h++;
	peers[h] = p;
	return h;
}
int peer_listen(uint16_t port) {
	auto p = std::make_shared<Sock>();
	p->peer_end = true;
	p->listening = p->bound = true;
	p->local.family = AF_INET;
	p->local.port = port;
	int h = next_h++;
	peers[h] = p;
	return h;
}
int peer_accept(int h) {
	Sock &l = *peers.at(h);
	if (l.backlog.empty()) {
		return -1;
	}
	auto p = std::make_shared<Sock>();
	p->peer_end = true;
	p->connected = true;
	p->conn = l.backlog.front().first;
	p->side = l.backlog.front().second;
	p->local = p->conn->a[1];
	p->peer = p->conn->a[0];
	l.backlog.pop_front();
	int n = next_h++;
	peers[n] = p;
	return n;
}
static void put(Conn &c, int side, const char *d, size_t n) {
	Chan &ch = c.c[side];
	uint64_t at = now_ns() + delay();
	if (!ch.q.empty()) {
		at = std::max(at, ch.q.back().first); // a stream: no reordering
	}
	ch.q.push_back({ at, std::string(d, n) });
	ch.queued += n;
	ch.total += n;
}
static size_t take(Chan &ch, char *b, size_t n) {
	size_t got = 0;
	while (got < n && !ch.q.empty() && ch.q.front().first <= now_ns()) {
		std::string &f = ch.q.front().second;
		size_t k = std::min(n - got, f.size());
		memcpy(b + got, f.data(), k);
		got += k;
		if (k == f.size()) {
			ch.q.pop_front();
		} else {
			f.erase(0, k);
		}
	}
	ch.queued -= got;
	return got;
}
int peer_send(int h, const void *d, size_t n) {
	Sock &p = *peers.at(h);
	if (!p.conn || p.conn->reset || p.shut_wr) {
		return -1;
	}
	put(*p.conn, p.side, (const char *)d, n);
	return n;
}
std::string peer_recv(int h) {
	Sock &p = *peers.at(h);
	std::string o(BUF * 4, 0);
	size_t k = p.conn ? take(p.conn->c[!p.side], &o[0], o.size()) : 0;
	o.resize(k);
	return o;
}
bool peer_eof(int h) {
	Sock &p = *peers.at(h);
	Chan &c = p.conn->c[!p.side];
	return c.fin && c.q.empty() && c.fin_at <= now_ns();
}
static void fin(Conn &c, int side) {
	if (!c.c[side].fin) {
		c.c[side].fin = true;
		c.c[side].fin_at = now_ns() + delay();
		if (!c.c[side].q.empty()) {
			c.c[side].fin_at = std::max(c.c[side].fin_at, c.c[side].q.back().first);
		}
	}
}
void peer_shutdown(int h) {
	Sock &p = *peers.at(h);
	p.shut_wr = true;
	if (p.conn) {
		fin(*p.conn, p.side);
	}
}
void peer_close(int h) {
	Sock &p = *peers.at(h);
	if (p.conn) {
		fin(*p.conn, p.side);
		p.conn->c[!p.side].reader_gone = true;
	}
	peers.erase(h);
}
void peer_reset(int h) {
	Sock &p = *peers.at(h);
	if (p.conn) {
		p.conn->reset = true;
		fault_fired(F_NET_RESET);
	}
	peers.erase(h);
}
uint64_t bytes_accepted(int h) {
	Sock &p = *peers.at(h);
	return p.conn->c[!p.side].total;
}
static bool established(Sock &s) {
	if (s.connecting && s.conn && s.conn->established_at <= now_ns()) {
		s.connecting = false;
		s.connected = true;
	}
	return s.connected;
}
bool wait_fd(int fd) { // scenario: let virtual time pass until the descriptor may have news
	(void)fd;
	advance_ns(1000000);
	return true;
}

ssize_t sock_read(int fd, void *b, size_t n) {
	syscall_point("recv");
	Sock *s = S(fd, "read");
	if (!s) {
		return fail(EBADF);
	}
	for (;;) {
		if (fault(F_NET_MISC, fail_recv)) {
			return fail(choose(ST_FAULT, 2) ? EINTR : EIO);
		}
		if (!established(*s)) {
			return fail(s->connecting ? EAGAIN : ENOTCONN);
		}
		Conn &c = *s->conn;
		if (reset_rate && fault(F_NET_RESET, reset_rate)) {
			c.reset = true;
		}
		if (c.reset) {
			return fail(ECONNRESET);
		}
		Chan &ch = c.c[!s->side];
		size_t want = n;
		if (short_io && want > 1 && flip(ST_IO, 1, 2)) {
			want = std::min(want, (size_t)1 + choose(ST_IO, want));
			fault_fired(F_SHORT_READ);
		}
		std::string t(want, 0);
		size_t k = take(ch, &t[0], want);
		if (k) {
			range_access(b, k, true, __builtin_return_address(0));
			memcpy(b, t.data(), k);
			return k;
		}
		if (ch.fin && ch.q.empty() && ch.fin_at <= now_ns()) {
			return 0;
		}
		if (s->shut_rd) {
			return 0;
		}
		if (s->nonblock) {
			return fail(EAGAIN);
		}
		uint64_t t2 = !ch.q.empty() ? ch.q.front().first : ch.fin ? ch.fin_at : now_ns() + 1000000;
		block_sleep(t2);
	}
}
static ssize_t do_send(int fd, const void *b, size_t n, bool nosignal) {
	syscall_point("send");
	Sock *s = S(fd, "write");
	if (!s) {
		return fail(EBADF);
	}
	range_access(b, n, false, __builtin_return_address(0));
	for (;;) {
		if (fault(F_NET_MISC, fail_send)) {
			return fail(choose(ST_FAULT, 2) ? EINTR : ENOBUFS);
		}
		if (!established(*s)) {
			return fail(s->connecting ? EAGAIN : ENOTCONN);
		}
		Conn &c = *s->conn;
		if (reset_rate && fault(F_NET_RESET, reset_rate)) {
			c.reset = true;
		}
		Chan &ch = c.c[s->side];
		if (s->shut_wr || c.reset || ch.reader_gone) {
			if (!nosignal) {
				violation("killed-by-sigpipe", "a send on a connection the peer closed raises SIGPIPE, which ends the process");
			}
			return fail(c.reset ? ECONNRESET : EPIPE);
		}
		size_t room = ch.queued < BUF ? BUF - ch.queued : 0;
		size_t k = std::min(n, room);
		if (n == 0) {
			return 0;
		}
		if (k == 0) {
			if (s->nonblock) {
				return fail(EAGAIN);
			}
			block_sleep(now_ns() + 1000000);
			continue;
		}
		if (short_io && k > 1 && flip(ST_IO, 1, 2)) {
			k = std::min(k, (size_t)1 + choose(ST_IO, k));
			fault_fired(F_SHORT_WRITE);
		}
		put(c, s->side, (const char *)b, k);
		return k;
	}
}
ssize_t sock_write(int fd, const void *b, size_t n) { return do_send(fd, b, n, false); }
int sock_close(int fd) {
	syscall_point("close(socket)");
	auto it = socks.find(fd);
	if (it == socks.end()) {
		violation("double-close", "close of socket %d which is not open", fd);
	}
	Sock &s = *it->second;
	if (it->second.use_count() == 1) {
		if (s.conn) {
			fin(*s.conn, s.side);
			s.conn->c[!s.side].reader_gone = true;
		}
		for (auto &b : s.backlog) {
			b.first->reset = true;
		}
	}
	socks.erase(it);
	return 0;
}
static bool parse(const struct sockaddr *sa, socklen_t n, Addr *o, uintptr_t) {
	if (n < sizeof(sa_family_t)) {
		return false;
	}
	range_access(sa, n, false, __builtin_return_address(0));
	o->family = sa->sa_family;
	if (sa->sa_family == AF_INET && n >= sizeof(struct sockaddr_in)) {
		const struct sockaddr_in *i = (const struct sockaddr_in *)sa;
		memcpy(o->ip, &i->sin_addr, 4);
		o->port = ntohs(i->sin_port);
		return true;
	}
	if (sa->sa_family == AF_INET6 && n >= sizeof(struct sockaddr_in6)) {
		const struct sockaddr_in6 *i = (const struct sockaddr_in6 *)sa;
		memcpy(o->ip, &i->sin6_addr, 16);
		o->port = ntohs(i->sin6_port);
		return true;
	}
	return false;
}
static void store(const Addr &a, struct sockaddr *sa, socklen_t *n) {
	char b[sizeof(struct sockaddr_in6)] = {};
	socklen_t k;
	if (a.family == AF_INET6) {
		struct sockaddr_in6 *i = (struct sockaddr_in6 *)b;
		i->sin6_family = AF_INET6;
		i->sin6_port = htons(a.port);
		memcpy(&i->sin6_addr, a.ip, 16);
		k = sizeof(*i);
	} else {
		struct sockaddr_in *i = (struct sockaddr_in *)b;
		i->sin_family = AF_INET;
		i->sin_port = htons(a.port);
		memcpy(&i->sin_addr, a.ip, 4);
		k = sizeof(*i);
	}
	if (sa && n) {
		range_access(sa, std::min(*n, k), true, __builtin_return_address(0));
		memcpy(sa, b, std::min(*n, k));
		*n = k;
	}
}
} // namespace net
} // namespace sim
using namespace sim;
using namespace sim::net;

EXPORT int sim_socket(int fam, int type, int) {
	syscall_point("socket");
	if (fault(F_NET_SOCKET, fail_socket)) {
		return fail(EMFILE);
	}
	if ((fam != AF_INET && fam != AF_INET6) || (type & 0xf) != SOCK_STREAM) {
		return fail(EAFNOSUPPORT);
	}
	auto s = std::make_shared<Sock>();
	s->family = s->local.family = fam;
	s->nonblock = type & SOCK_NONBLOCK;
	s->cloexec = type & SOCK_CLOEXEC;
	int fd = next_fd++;
	if (fd_zero && low_fd() < 3) {
		fd = low_fd();
		fd_zero = false;
	}
	socks[fd] = s;
	return fd;
}
EXPORT int sim_bind(int fd, const struct sockaddr *sa, socklen_t n) {
	syscall_point("bind");
	Sock *s = S(fd, "bind");
	if (!s) {
		return fail(EBADF);
	}
	Addr a;
	if (!parse(sa, n, &a, 0)) {
		return fail(EINVAL);
	}
	if (a.family != s->family) {
		return fail(EAFNOSUPPORT);
	}
	if (fault(F_NET_BIND, fail_bind)) {
		return fail(EADDRINUSE);
	}
	if (s->bound) {
		return fail(EINVAL);
	}
	for (auto &k : socks) {
		if (k.second->bound && k.second->local.port == a.port && a.port && !(k.second->reuse_port && s->reuse_port)) {
			if (any_addr(a) || any_addr(k.second->local) || memcmp(a.ip, k.second->local.ip, 16) == 0) {
				return fail(EADDRINUSE);
			}
		}
	}
	if (a.port == 0) {
		a.port = next_port++;
	}
	s->local = a;
	s->bound = true;
	return 0;
}
EXPORT int sim_listen(int fd, int) {
	syscall_point("listen");
	Sock *s = S(fd, "listen");
	if (!s) {
		return fail(EBADF);
	}
	if (fault(F_NET_MISC, fail_listen)) {
		return fail(EADDRINUSE);
	}
	if (!s->bound) {
		s->local.port = next_port++;
		s->bound = true;
	}
	s->listening = true;
	return 0;
}
EXPORT int sim_accept4(int fd, struct sockaddr *sa, socklen_t *n, int flags) {
	syscall_point("accept");
	Sock *s = S(fd, "accept");
	if (!s) {
		return fail(EBADF);
	}
	if (!s->listening) {
		return fail(EINVAL);
	}
	if (fault(F_NET_MISC, fail_accept)) {
		static const int es[] = { EMFILE, ECONNABORTED, EINTR };
		return fail(es[choose(ST_FAULT, 3)]);
	}
	while (s->backlog.empty() || s->backlog.front().first->established_at > now_ns()) {
		if (s->nonblock) {
			return fail(EAGAIN);
		}
		block_sleep(now_ns() + 1000000);
	}
	auto c = std::make_shared<Sock>();
	c->family = s->family;
	c->conn = s->backlog.front().first;
	c->side = s->backlog.front().second;
	s->backlog.pop_front();
	c->connected = c->bound = true;
	c->nonblock = flags & SOCK_NONBLOCK;
	c->cloexec = flags & SOCK_CLOEXEC;
	c->local = c->conn->a[1];
	c->peer = c->conn->a[0];
	if (s->family == AF_INET6 && c->peer.family == AF_INET) { // an IPv4 peer of an IPv6 socket
		Addr m;
		m.family = AF_INET6;
		m.port = c->peer.port;
		m.ip[10] = m.ip[11] = 0xff;
		memcpy(m.ip + 12, c->peer.ip, 4);
		c->peer = m;
	}
	store(c->peer, sa, n);
	int nfd = net::next_fd++;
	if (fd_zero && low_fd() < 3) {
		nfd = low_fd();
		fd_zero = false;
	}
	socks[nfd] = c;
	return nfd;
}
EXPORT int sim_accept(int fd, struct sockaddr *sa, socklen_t *n) { return sim_accept4(fd, sa, n, 0); }
EXPORT int sim_connect(int fd, const struct sockaddr *sa, socklen_t n) {
	syscall_point("connect");
	Sock *s = S(fd, "connect");
	if (!s) {
		return fail(EBADF);
	}
	Addr a;
	if (!parse(sa, n, &a, 0)) {
		return fail(EINVAL);
	}
	if (s->connected || s->conn) {
		return fail(established(*s) ? EISCONN : EALREADY);
	}
	if (fault(F_NET_REFUSE, fail_connect)) {
		return fail(ENETUNREACH);
	}
	s->peer = a;
	if (!s->bound) {
		s->local.family = a.family;
		static const uint8_t lo[4] = { 127, 0, 0, 1 }, ex[4] = { 10, 0, 0, 5 };
		memcpy(s->local.ip, loop_addr(a) ? lo : ex, 4);
		s->local.port = next_port++;
		s->bound = true;
	}
	auto l = listener(a.port, loop_addr(a), a.family == AF_INET6);
	if (!l) {
		if (s->nonblock && choose(ST_NET, 2)) {
			s->so_error = ECONNREFUSED;
			return fail(EINPROGRESS);
		}
		fault_fired(F_NET_REFUSE);
		return fail(ECONNREFUSED);
	}
	CP c = make_conn(*s, *l);
	c->a[1] = a;
	s->connecting = true;
	if (s->nonblock) {
		if (established(*s)) {
			return 0;
		}
		return fail(EINPROGRESS);
	}
	block_sleep(c->established_at);
	established(*s);
	return 0;
}
EXPORT ssize_t sim_send(int fd, const void *b, size_t n, int flags) { return do_send(fd, b, n, flags & MSG_NOSIGNAL); }
EXPORT ssize_t sim_recv(int fd, void *b, size_t n, int) { return sock_read(fd, b, n); }
EXPORT int sim_shutdown(int fd, int how) {
	syscall_point("shutdown");
	Sock *s = S(fd, "shutdown");
	if (!s) {
		return fail(EBADF);
	}
	if (!established(*s)) {
		return fail(ENOTCONN);
	}
	if (how == SHUT_RD || how == SHUT_RDWR) {
		s->shut_rd = true;
	}
	if (how == SHUT_WR || how == SHUT_RDWR) {
		s->shut_wr = true;
		fin(*s->conn, s->side);
	}
	return 0;
}
EXPORT int sim_setsockopt(int fd, int level, int opt, const void *v, socklen_t n) {
	syscall_point("setsockopt");
	Sock *s = S(fd, "setsockopt");
	if (!s) {
		return fail(EBADF);
	}
	if (fault(F_NET_MISC, fail_misc)) {
		return fail(ENOBUFS);
	}
	int x = 0;
	range_access(v, std::min<size_t>(n, 4), false, __builtin_return_address(0));
	memcpy(&x, v, std::min<size_t>(n, 4));
	if (level == SOL_SOCKET && opt == SO_REUSEADDR) {
		s->reuse_addr = x;
	} else if (level == SOL_SOCKET && opt == SO_REUSEPORT) {
		s->reuse_port = x;
	} else if (level == SOL_SOCKET && opt == SO_KEEPALIVE) {
		s->keepalive = x;
	} else if (level == IPPROTO_TCP && opt == TCP_NODELAY) {
		s->nodelay = x;
	} else if (level == IPPROTO_IPV6 && opt == IPV6_V6ONLY) {
		s->v6only = x;
	}
	return 0;
}
EXPORT int sim_getsockopt(int fd, int level, int opt, void *v, socklen_t *n) {
	syscall_point("getsockopt");
	Sock *s = S(fd, "getsockopt");
	if (!s) {
		return fail(EBADF);
	}
	if (fault(F_NET_MISC, fail_misc)) {
		return fail(ENOBUFS);
	}
	int x = 0;
	if (level == SOL_SOCKET && opt == SO_ERROR) {
		x = s->so_error;
		s->so_error = 0;
		if (!x && s->conn && s->conn->reset) {
			x = ECONNRESET;
		}
	} else if (level == SOL_SOCKET && opt == SO_KEEPALIVE) {
		x = s->keepalive;
	} else if (level == IPPROTO_TCP && opt == TCP_NODELAY) {
		x = s->nodelay;
	}
	range_access(v, 4, true, __builtin_return_address(0));
	memcpy(v, &x, 4);
	*n = 4;
	return 0;
}
EXPORT int sim_getsockname(int fd, struct sockaddr *sa, socklen_t *n) {
	syscall_point("getsockname");
	Sock *s = S(fd, "getsockname");
	if (!s) {
		return fail(EBADF);
	}
	if (fault(F_NET_MISC, fail_misc)) {
		return fail(ENOBUFS);
	}
	store(s->local, sa, n);
	return 0;
}
EXPORT int sim_getpeername(int fd, struct sockaddr *sa, socklen_t *n) {
	syscall_point("getpeername");
	Sock *s = S(fd, "getpeername");
	if (!s) {
		return fail(EBADF);
	}
	if (!established(*s)) {
		return fail(ENOTCONN);
	}
	if (fault(F_NET_MISC, fail_misc)) {
		return fail(ENOBUFS);
	}
	store(s->peer, sa, n);
	return 0;
}
EXPORT int sim_fcntl(int fd, int cmd, ...) {
	va_list ap;
	va_start(ap, cmd);
	int arg = va_arg(ap, int);
	va_end(ap);
	syscall_point("fcntl");
	Sock *s = S(fd, "fcntl");
	if (!s) {
		return fail(EBADF);
	}
	if (fault(F_NET_MISC, fail_misc)) {
		return fail(EINTR);
	}
	switch (cmd) {
		case F_DUPFD:
		case F_DUPFD_CLOEXEC: {
			if (fault(F_NET_SOCKET, fail_socket)) {
				return fail(EMFILE);
			}
			int nfd = net::next_fd++;
			if (arg < 3 && low_free) {
				for (int i = std::max<long>(arg, 0); i < 3; i++) {
					if (!socks.count(i)) {
						nfd = i;
						break;
					}
				}
			}
			socks[nfd] = socks[fd];
			socks[nfd]->cloexec = cmd == F_DUPFD_CLOEXEC;
			return nfd;
		}
		case F_GETFL:
			return O_RDWR | (s->nonblock ? O_NONBLOCK : 0);
		case F_SETFL:
			s->nonblock = arg & O_NONBLOCK;
			return 0;
		case F_GETFD:
			return s->cloexec ? FD_CLOEXEC : 0;
		case F_SETFD:
			s->cloexec = arg & FD_CLOEXEC;
			return 0;
	}
	return fail(EINVAL);
}
namespace sim {
namespace net {
bool sock_flags(int fd, bool *nonblock, bool *cloexec, bool *nodelay, bool *keepalive, bool *reuse_addr) {
	auto it = socks.find(fd);
	if (it == socks.end()) {
		return false;
	}
	*nonblock = it->second->nonblock;
	*cloexec = it->second->cloexec;
	*nodelay = it->second->nodelay;
	*keepalive = it->second->keepalive;
	*reuse_addr = it->second->reuse_addr;
	return true;
}
} // namespace net
} // namespace sim
