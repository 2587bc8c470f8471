// N01: addresses and sockets.
#include "common.h"
#include <arpa/inet.h>
#include <errno.h>
#include <netinet/in.h>
using namespace sim;

namespace {
static String S(const std::string &s) { return String::utf8(s.c_str(), (int)s.size()); }
static std::string B(const String &s) {
	CharString c = s.utf8();
	return std::string(c.get_data() ? c.get_data() : "", c.length());
}
static std::string pattern(size_t n) {
	std::string s(n, 0);
	uint64_t x = bits(ST_W0 + self());
	for (auto &c : s) {
		x = x * 6364136223846793005ULL + 1442695040888963407ULL;
		c = (char)(x >> 56);
	}
	return s;
}
// ---- addresses ---------------------------------------------------------------------------------------
struct Spec { // what an address should say
	int family = AF_INET;
	uint8_t ip[16] = {};
	uint16_t port = 0;
	bool unspecified = false;
};
static std::string text_of(const Spec &s) {
	char b[64] = "";
	inet_ntop(s.family, s.ip, b, sizeof(b));
	return b;
}
static bool v4_loop(const uint8_t *p) { return p[0] == 127 && p[1] == 0 && p[2] == 0 && p[3] == 1; }
static void check_addr(const InetAddress &a, const Spec &s, const char *what) {
	SIM_CHECK(a.family() == s.family, "address", "%s: family %d, expected %d", what, a.family(), s.family);
	SIM_CHECK(a.is_ip_v6() == (s.family == AF_INET6), "address", "%s: says version 6 %d", what, a.is_ip_v6());
	SIM_CHECK(a.to_port() == s.port && a.port_net_endian() == htons(s.port), "address", "%s: port %u, expected %u", what, a.to_port(), s.port);
	std::string t = text_of(s);
	SIM_CHECK(B(a.to_ip()) == t, "address", "%s: %s, expected %s", what, B(a.to_ip()).c_str(), t.c_str());
	SIM_CHECK(B(a.to_ip_port()) == t + ":" + std::to_string(s.port), "address", "%s: %s, expected %s:%u", what, B(a.to_ip_port()).c_str(), t.c_str(), s.port);
	SIM_CHECK(a.is_unspecified() == s.unspecified, "address", "%s: unspecified %d, expected %d", what, a.is_unspecified(), s.unspecified);
	static const uint8_t l6[16] = { 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1 }, m[12] = { 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff };
	bool loop = s.family == AF_INET ? v4_loop(s.ip) : memcmp(s.ip, l6, 16) == 0 || (memcmp(s.ip, m, 12) == 0 && v4_loop(s.ip + 12));
	SIM_CHECK(a.is_loopback_ip() == loop, "address", "%s: %s loopback %d, expected %d", what, t.c_str(), a.is_loopback_ip(), loop);
	const struct sockaddr *sa = a.get_sock_addr();
	SIM_CHECK(sa->sa_family == s.family, "address", "%s: system address of family %d", what, sa->sa_family);
	if (s.family == AF_INET) {
		SIM_CHECK(memcmp(&((const sockaddr_in *)sa)->sin_addr, s.ip, 4) == 0 && ((const sockaddr_in *)sa)->sin_port == htons(s.port), "address", "%s: the system address differs", what);
	} else {
		SIM_CHECK(memcmp(&((const sockaddr_in6 *)sa)->sin6_addr, s.ip, 16) == 0 && ((const sockaddr_in6 *)sa)->sin6_port == htons(s.port) && ((const sockaddr_in6 *)sa)->sin6_scope_id == 0, "address", "%s: the system address differs", what);
	}
}
static const char *const v4s[] = { "127.0.0.1", "10.0.0.5", "0.0.0.0", "255.255.255.255", "192.168.1.254", "172.16.0.1", "8.8.4.4", "127.0.0.2" };
static const char *const v6s[] = { "::1", "::", "fe80::1", "2001:db8::1", "::ffff:127.0.0.1", "::ffff:10.1.2.3", "fec0::5", "1:2:3:4:5:6:7:8" };
static const char *const bad[] = { "", "localhost", "1.2.3", "1.2.3.4.5", "256.1.1.1", "::g", "1:2", " 127.0.0.1", "ü" };
static InetAddress *some_addr(Spec &s) {
	static const uint16_t ports[] = { 0, 1, 80, 8080, 40001, 65535, 255, 256 };
	s.port = ports[wchoose(8)];
	switch (wchoose(6)) {
		case 0: {
			bool loop = wchoose(2), v6 = wchoose(2);
			s.family = v6 ? AF_INET6 : AF_INET;
			if (loop && v6) s.ip[15] = 1;
			if (loop && !v6) s.ip[0] = 127, s.ip[3] = 1;
			return memnew(InetAddress(s.port, loop, v6));
		}
		case 1: {
			const char *t = v4s[wchoose(8)];
			inet_pton(AF_INET, t, s.ip);
			return memnew(InetAddress(String(t), s.port));
		}
		case 2: {
			const char *t = v6s[wchoose(8)];
			s.family = AF_INET6;
			inet_pton(AF_INET6, t, s.ip);
			return memnew(InetAddress(String(t), s.port, true));
		}
		case 3: {
			s.family = wchoose(2) ? AF_INET6 : AF_INET;
			s.unspecified = true;
			return memnew(InetAddress(S(bad[wchoose(9)]), s.port, s.family == AF_INET6));
		}
		case 4: {
			sockaddr_in a;
			memset(&a, 0, sizeof(a));
			a.sin_family = AF_INET;
			a.sin_port = htons(s.port);
			inet_pton(AF_INET, v4s[wchoose(8)], s.ip);
			memcpy(&a.sin_addr, s.ip, 4);
			return memnew(InetAddress(a));
		}
		default: {
			sockaddr_in6 a;
			memset(&a, 0, sizeof(a));
			if (wchoose(3) == 0) { // the system's answer for a version 4 socket
				sockaddr_in *i = (sockaddr_in *)&a;
				i->sin_family = AF_INET;
				i->sin_port = htons(s.port);
				inet_pton(AF_INET, v4s[wchoose(8)], s.ip);
				memcpy(&i->sin_addr, s.ip, 4);
			} else {
				s.family = AF_INET6;
				a.sin6_family = AF_INET6;
				a.sin6_port = htons(s.port);
				inet_pton(AF_INET6, v6s[wchoose(8)], s.ip);
				memcpy(&a.sin6_addr, s.ip, 16);
			}
			if (wchoose(2)) return memnew(InetAddress(a));
			InetAddress *r = memnew(InetAddress);
			r->set_sock_addr_inet6(a);
			return r;
		}
	}
}
static void n01_addresses() {
	delete new int;
	Ref<Reference> keep(memnew(Reference));
	uint64_t before = heap_live_since(0);
	{
		std::vector<InetAddress *> v;
		std::vector<Spec> sp;
		uint32_t n = 2 + wchoose(20);
		for (uint32_t k = 0; k < n; k++) {
			uint32_t op = v.size() < 2 ? 0 : wchoose(7);
			uint32_t i = v.empty() ? 0 : wchoose(v.size()), j = v.empty() ? 0 : wchoose(v.size());
			switch (op) {
				case 0: {
					Spec s;
					InetAddress *a = some_addr(s);
					v.push_back(a);
					sp.push_back(s);
				} break;
				case 1:
					v.push_back(memnew(InetAddress(*v[i])));
					sp.push_back(sp[i]);
					break;
				case 2:
					*v[i] = *v[j];
					sp[i] = sp[j];
					break;
				case 3: {
					uint16_t p = wchoose(65536);
					v[i]->set_port_net_endian(htons(p));
					sp[i].port = p;
				} break;
				case 4: {
					InetAddress c = *v[i];
					check_addr(c, sp[i], "a copy");
					c.set_port_net_endian(htons(1234));
				} break;
				case 5: {
					Socket s(0, *v[i]);
					check_addr(s._address, sp[i], "a socket's address");
				} break;
				default:
					memdelete(v[i]);
					v.erase(v.begin() + i);
					sp.erase(sp.begin() + i);
					break;
			}
			for (size_t x = 0; x < v.size(); x++) check_addr(*v[x], sp[x], op == 0 ? "a new address" : op == 3 ? "after a change of a port" : "an address");
		}
		for (auto a : v) memdelete(a);
	}
	uint64_t after = heap_live_since(0);
	SIM_CHECK(after <= before, "leak", "%llu blocks are left by addresses", (unsigned long long)(after - before));
}
// ---- streams -----------------------------------------------------------------------------------------
static int sock_read_checked(Socket &s, size_t cap, std::string *got) {
	std::string buf(cap + 16, '\x5a');
	int r = s.read(&buf[0], cap);
	SIM_CHECK(r <= (int)cap, "count", "a receive into %zu bytes reports %d", cap, r);
	for (size_t i = r > 0 ? r : 0; i < buf.size(); i++) SIM_CHECK(buf[i] == '\x5a', "count", "a receive that reports %d wrote byte %zu", r, i);
	if (r > 0) got->append(buf, 0, r);
	return r;
}
static void stream_faults() {
	net::short_io = choose(ST_CFG, 2);
	if (choose(ST_CFG, 3) == 1) net::fail_send = 50 + choose(ST_CFG, 200);
	if (choose(ST_CFG, 3) == 1) net::fail_recv = 50 + choose(ST_CFG, 200);
	if (choose(ST_CFG, 5) == 1) net::reset_rate = 5 + choose(ST_CFG, 40);
}
static bool retry(int e) { return e == EAGAIN || e == EINTR || e == EWOULDBLOCK || e == ENOBUFS || e == EIO; }
// a library socket against a peer driven by the simulator
static void n01_stream() {
	uint16_t port = 7000;
	Socket c, l;
	int h = -1;
	bool server = wchoose(2);
	if (server) {
		l.create(AF_INET);
		SIM_CHECK(l.bind_address(InetAddress(port, false)) == 0 && l.listen() == 0, "outcome", "a listener could not be opened");
		h = net::peer_connect((const uint8_t *)"\x7f\0\0\1", port, wchoose(2));
		SIM_CHECK(h >= 0, "reachable", "a listener on every address cannot be reached");
		int r = -1;
		for (int i = 0; i < 50 && r < 0; i++) {
			advance_ns(2000000);
			r = l.accept(&c);
		}
		SIM_CHECK(r >= 0, "outcome", "a waiting connection is never accepted");
	} else {
		int pl = net::peer_listen(port);
		c.create(AF_INET);
		int r = c.connect(InetAddress(String("10.0.0.77"), port));
		SIM_CHECK(r == 0 || errno == EINPROGRESS, "outcome", "connecting reports %d", r);
		for (int i = 0; i < 50 && h < 0; i++) {
			advance_ns(2000000);
			h = net::peer_accept(pl);
		}
		SIM_CHECK(h >= 0, "outcome", "the peer never sees the connection");
		advance_ns(5000000);
		SIM_CHECK(c.get_error() == 0, "outcome", "an established connection reports the error %d", c.get_error());
	}
	stream_faults();
	std::string out, in, arrived, got;
	bool peer_done = false, eof = false, closed_write = false, dead = false, peer_gone = false;
	for (int step = 0, n = 4 + (int)wchoose(40); step < n && !dead; step++) {
		switch (wchoose(8)) {
			case 0:
			case 1: {
				if (closed_write) break;
				std::string d = pattern(1 + wchoose(wchoose(3) ? 40 : 900));
				errno = 0;
				int r = c.send(d.data(), d.size());
				SIM_CHECK(r <= (int)d.size() && (r >= 0 || errno != 0), "count", "a send of %zu bytes reports %d", d.size(), r);
				if (r > 0) out.append(d, 0, r);
				if (r < 0 && !retry(errno)) dead = true;
				if (!peer_gone && !dead) SIM_CHECK(net::bytes_accepted(h) == out.size(), "count", "sends reported %zu bytes, the network took %llu", out.size(), (unsigned long long)net::bytes_accepted(h));
			} break;
			case 2:
			case 3: {
				errno = 0;
				int r = sock_read_checked(c, 1 + wchoose(wchoose(2) ? 8 : 700), &got);
				if (r == 0) {
					SIM_CHECK(peer_done && got == in, "eof", "the stream ended after %zu of %zu bytes", got.size(), in.size());
					eof = true;
				}
				SIM_CHECK(r >= 0 || errno != 0, "outcome", "a failed receive has no reason");
				SIM_CHECK(!eof || r <= 0, "eof", "data after the end of the stream");
				if (r < 0 && !retry(errno)) dead = true;
			} break;
			case 4:
				if (!peer_done && !peer_gone) {
					std::string d = pattern(1 + wchoose(300));
					if (net::peer_send(h, d.data(), d.size()) == (int)d.size()) in += d;
				}
				break;
			case 5:
				if (!peer_gone) arrived += net::peer_recv(h);
				break;
			case 6: advance_ns(1000000 * (1 + wchoose(5))); break;
			default:
				if (wchoose(4)) break;
				switch (wchoose(4)) {
					case 0:
						if (!peer_gone) {
							net::peer_shutdown(h);
							peer_done = true;
						}
						break;
					case 1:
						if (!closed_write && c.close_write() == 0) closed_write = true;
						break;
					case 2:
						if (!peer_gone) {
							arrived += net::peer_recv(h);
							net::peer_close(h);
							peer_done = peer_gone = true;
							probe(0, "peers that closed while the library went on sending");
						}
						break;
					default:
						if (!peer_gone) {
							net::peer_reset(h);
							peer_gone = true;
							probe(1, "connections reset by the peer");
						}
				}
		}
		SIM_CHECK(in.compare(0, got.size(), got) == 0 && got.size() <= in.size(), "order", "what was received is not the beginning of what was sent");
		SIM_CHECK(out.compare(0, arrived.size(), arrived) == 0 && arrived.size() <= out.size(), "order", "what arrived is not the beginning of what was sent");
	}
	// without faults everything arrives
	net::short_io = false;
	net::fail_send = net::fail_recv = net::reset_rate = 0;
	if (!dead && !peer_gone) {
		if (!closed_write) SIM_CHECK(c.close_write() == 0, "outcome", "closing the sending side fails");
		for (int i = 0; i < 200; i++) {
			advance_ns(2000000);
			arrived += net::peer_recv(h);
			if (net::peer_eof(h)) break;
		}
		SIM_CHECK(arrived == out && net::peer_eof(h), "delivery", "%zu of %zu bytes arrived at the peer", arrived.size(), out.size());
		if (!peer_done) net::peer_shutdown(h);
		for (int i = 0; i < 400; i++) {
			int r = sock_read_checked(c, 64, &got);
			if (r == 0) {
				eof = true;
				break;
			}
			if (r < 0) advance_ns(2000000);
		}
		SIM_CHECK(eof && got == in, "delivery", "%zu of %zu bytes were received", got.size(), in.size());
	}
	c.close_socket();
	l.close_socket();
	SIM_CHECK(net::open_sockets() == 0, "handles", "%d sockets are left", net::open_sockets());
}
// both ends are the library's, on two threads
static void n01_pair() {
	set_step_limit(400000, 60000000);
	uint16_t port = 7100;
	bool v6 = choose(ST_CFG, 2), loop = choose(ST_CFG, 2);
	Socket l;
	l.create(v6 ? AF_INET6 : AF_INET);
	SIM_CHECK(l.bind_address(InetAddress(port, loop, v6)) == 0 && l.listen() == 0, "outcome", "a listener could not be opened");
	net::short_io = choose(ST_CFG, 2);
	if (choose(ST_CFG, 3) == 1) net::fail_send = net::fail_recv = 50 + choose(ST_CFG, 150);
	std::string up, down;
	{
		Quiet q;
		up = pattern(choose(ST_CFG, 3000));
		down = pattern(choose(ST_CFG, 3000));
	}
	auto talk = [](Socket &s, const std::string &send, const std::string &want, const char *who) {
		std::string got;
		size_t at = 0;
		bool closed = false, eof = false;
		for (int i = 0; i < 20000 && !(closed && eof); i++) {
			bool progress = false;
			if (at < send.size()) {
				size_t k;
				{
					Quiet q;
					k = 1 + wchoose(std::min<size_t>(send.size() - at, 500));
				}
				int r = s.send(send.data() + at, k);
				SIM_CHECK(r <= (int)k && (r > 0 || retry(errno)), "outcome", "%s: a send of %zu bytes reports %d", who, k, r);
				if (r > 0) at += r, progress = true;
			} else if (!closed) {
				SIM_CHECK(s.close_write() == 0, "outcome", "%s: closing the sending side fails", who);
				closed = progress = true;
			}
			if (!eof) {
				size_t k;
				{
					Quiet q;
					k = 1 + wchoose(500);
				}
				int r = sock_read_checked(s, k, &got);
				SIM_CHECK(r >= 0 || retry(errno), "outcome", "%s: a receive reports %d (%d)", who, r, errno);
				if (r == 0) eof = true;
				progress |= r >= 0;
			}
			if (!progress) SFWTime::sleep_ms(1);
		}
		SIM_CHECK(eof && got == want, "delivery", "%s: %zu of %zu bytes were received", who, got.size(), want.size());
	};
	int t = spawn([&] {
		Socket c;
		c.create(v6 ? AF_INET6 : AF_INET);
		int r = c.connect(InetAddress(port, true, v6));
		SIM_CHECK(r == 0 || errno == EINPROGRESS, "outcome", "connecting reports %d", r);
		for (int i = 0; i < 200; i++) { // until established
			int e = -1;
			c.get_peer_addr(&e);
			if (e == 0) break;
			SFWTime::sleep_ms(1);
		}
		talk(c, up, down, "client");
		SIM_CHECK(!c.is_self_connect(), "address", "a connection between two sockets is said to be one with itself");
	});
	Socket s;
	int r = -1;
	for (int i = 0; i < 2000 && r < 0; i++) {
		r = l.accept(&s);
		if (r < 0) {
			SIM_CHECK(retry(errno), "outcome", "accepting reports the error %d", errno);
			SFWTime::sleep_ms(1);
		}
	}
	SIM_CHECK(r >= 0, "outcome", "a waiting connection is never accepted");
	talk(s, down, up, "server");
	join(t);
}
// ---- outcomes ----------------------------------------------------------------------------------------
static void n01_outcomes() {
	if (choose(ST_CFG, 3) == 1) net::fail_socket = 100 + choose(ST_CFG, 300);
	if (choose(ST_CFG, 3) == 1) net::fail_bind = 100 + choose(ST_CFG, 300);
	if (choose(ST_CFG, 3) == 1) net::fail_listen = 100 + choose(ST_CFG, 300);
	if (choose(ST_CFG, 3) == 1) net::fail_accept = 100 + choose(ST_CFG, 300);
	if (choose(ST_CFG, 3) == 1) net::fail_connect = 100 + choose(ST_CFG, 300);
	if (choose(ST_CFG, 3) == 1) net::fail_misc = 100 + choose(ST_CFG, 300);
	struct Obj {
		Socket *s = nullptr;
		bool open = false, v6 = false, bound = false, listening = false, connected = false, tried = false;
		uint16_t port = 0;
		bool loop = false;
	};
	int no = 1 + choose(ST_CFG, 3);
	std::vector<Obj> o(no);
	std::vector<int> peers;
	uint16_t next_port = 7200;
	for (auto &b : o) b.s = memnew(Socket);
	int listen_port = net::peer_listen(7199);
	(void)listen_port;
	auto count = [&] {
		int n = 0;
		for (auto &b : o) n += b.open;
		return n;
	};
	net::low_free = choose(ST_CFG, 2);
	for (int step = 0, n = 3 + (int)wchoose(30); step < n; step++) {
		Obj &b = o[wchoose(no)];
		int total = net::open_sockets();
		switch (wchoose(9)) {
			case 0: {
				net::fd_zero = wchoose(6) == 1;
				bool v6 = wchoose(2);
				if (v6 || wchoose(2)) {
					b.s->create(v6 ? AF_INET6 : AF_INET);
				} else {
					b.s->create_net_socket();
				}
				net::fd_zero = false;
				bool was = b.open;
				b.open = net::open_sockets() > total - (was ? 1 : 0);
				b.v6 = v6;
				b.bound = b.listening = b.connected = false;
				b.port = 0;
				b.tried = false;
			} break;
			case 1: {
				if (b.tried) break;
				bool loop = wchoose(2), taken = wchoose(4) == 1 && next_port > 7200, wrong = wchoose(6) == 1;
				uint16_t port = taken ? (uint16_t)(7200 + wchoose(next_port - 7200)) : next_port++;
				errno = 0;
				int r = b.s->bind_address(InetAddress(port, loop, wrong ? !b.v6 : b.v6));
				SIM_CHECK(r == 0 || !(b.open && !b.bound && !taken && !wrong && !net::fail_bind), "outcome", "binding a free port reports %d without a reason", r);
				SIM_CHECK(r != 0 || (b.open && !b.bound && !wrong), "outcome", "binding reports success where it is impossible");
				if (r == 0) {
					b.bound = true;
					b.port = port;
					b.loop = loop;
					int e = 1;
					struct sockaddr_in6 la = b.s->get_local_addr(&e);
					if (e == 0) {
						InetAddress a(la);
						Spec s;
						s.family = b.v6 ? AF_INET6 : AF_INET;
						s.port = port;
						if (loop && b.v6) s.ip[15] = 1;
						if (loop && !b.v6) s.ip[0] = 127, s.ip[3] = 1;
						check_addr(a, s, "the bound address");
					} else {
						SIM_CHECK(net::fail_misc, "outcome", "the local address is refused without a reason");
					}
				}
			} break;
			case 2: {
				if (b.connected) break;
				int r = b.s->listen();
				net::SockInfo si;
				SIM_CHECK(r == 0 || !b.open || net::fail_listen, "outcome", "listening reports %d without a reason", r);
				SIM_CHECK(r != 0 || b.open, "outcome", "listening without a socket reports success");
				if (r == 0 && b.port) {
					b.listening = true;
					SIM_CHECK(net::find_listener(b.port, &si), "reachable", "nothing listens on port %u", b.port);
					SIM_CHECK(net::reachable_from_loopback(b.port), "reachable", "a listener cannot be reached through the loopback interface");
					SIM_CHECK(net::reachable_from_outside(b.port) == !b.loop, "reachable", "a %s listener is %sreachable from other machines", b.loop ? "loopback-only" : "public", b.loop ? "" : "not ");
				} else if (r == 0) {
					b.bound = b.listening = true;
					b.port = 0;
				}
			} break;
			case 3: { // a connection arrives and is accepted
				if (!b.listening || !b.port) break;
				int h = net::peer_connect((const uint8_t *)"\x7f\0\0\1", b.port, true);
				if (h < 0) break; // an IPv6 loopback listener and an IPv4 peer
				peers.push_back(h);
				advance_ns(10000000);
				Obj &d = o[wchoose(no)];
				if (&d == &b) break;
				int before = net::open_sockets();
				net::fd_zero = wchoose(6) == 1;
				errno = 0;
				int r = b.s->accept(d.s);
				net::fd_zero = false;
				SIM_CHECK(r >= 0 || net::fail_accept || net::fail_socket || net::fail_misc, "outcome", "accepting a waiting connection reports %d (%d)", r, errno);
				if (r >= 0) {
					SIM_CHECK(net::open_sockets() == before + (d.open ? 0 : 1), "handles", "%d sockets are open after accepting, expected %d", net::open_sockets(), before + (d.open ? 0 : 1));
					d.open = d.connected = true;
					d.bound = true;
					d.listening = false;
					d.port = 0;
					d.v6 = b.v6;
					Spec s;
					uint16_t pp = d.s->_address.to_port();
					s.port = pp;
					s.family = b.v6 ? AF_INET6 : AF_INET;
					if (b.v6) {
						s.ip[10] = s.ip[11] = 0xff;
						s.ip[12] = 127, s.ip[15] = 1;
					} else {
						s.ip[0] = 127, s.ip[3] = 1;
					}
					SIM_CHECK(pp >= 40000, "address", "the accepted peer has port %u", pp);
					check_addr(d.s->_address, s, "the accepted peer");
					// it is that connection
					SIM_CHECK(d.s->send("hello", 5) == 5, "outcome", "sending on an accepted connection fails");
					advance_ns(20000000);
				} else {
					SIM_CHECK(net::open_sockets() == before, "handles", "a failed accept changed the number of open sockets");
				}
			} break;
			case 4: {
				if (!b.open || b.listening || b.connected) break;
				bool nobody = wchoose(3) == 1;
				errno = 0;
				int r = b.s->connect(b.v6 ? InetAddress(nobody ? 7198 : 7199, true, true) : InetAddress(String("127.0.0.1"), nobody ? 7198 : 7199));
				int en = errno;
				b.tried = true; // may be bound now
				SIM_CHECK(r != 0 || (!nobody && !b.v6), "outcome", "connecting to a port nobody listens on reports success");
				SIM_CHECK(r == 0 || en != 0, "outcome", "a failed connect has no reason");
				if (r == 0 || en == EINPROGRESS) {
					advance_ns(10000000);
					int e = b.s->get_error();
					SIM_CHECK(e != 0 || (!nobody && !b.v6), "outcome", "a refused connection reports no error");
					SIM_CHECK(e == 0 || nobody || b.v6 || net::fail_misc, "outcome", "an established connection reports the error %d", e);
					b.connected = true;
				} else {
					SIM_CHECK(nobody || b.v6 || net::fail_connect, "outcome", "connecting to a listener reports %d (%d)", r, en);
				}
			} break;
			case 5: {
				b.s->close_socket();
				b.open = b.bound = b.listening = b.connected = b.tried = false;
			} break;
			case 6: { // a closed socket is an error, never data
				if (b.open) break;
				std::string g;
				int r = sock_read_checked(*b.s, 8, &g);
				int w = b.s->send("x", 1);
				SIM_CHECK(r < 0 && w < 0 && net::stdin_touched == 0, "closed", "a closed socket reports %d received and %d sent", r, w);
				SIM_CHECK(b.s->listen() < 0 && b.s->close_write() < 0 && b.s->connect(InetAddress(7199, true)) < 0 && b.s->bind_address(InetAddress(7999)) != 0, "closed", "an operation of a closed socket reports success");
				Socket dummy;
				SIM_CHECK(b.s->accept(&dummy) < 0, "closed", "a closed socket accepts connections");
				int e1 = 0, e2 = 0;
				b.s->get_local_addr(&e1);
				b.s->get_peer_addr(&e2);
				SIM_CHECK(e1 != 0 && e2 != 0, "closed", "a closed socket reports addresses");
			} break;
			case 7: {
				if (!b.open) break;
				bool on = wchoose(2), nb, ce, nd, ka, ra;
				b.s->set_tcp_nodelay(on);
				b.s->set_keep_alive(!on);
				b.s->set_reuse_addr(on);
				int r1 = b.s->set_non_block(), r2 = b.s->set_close_on_exit(), r3 = b.s->set_reuse_port(on);
				SIM_CHECK(net::sock_flags(b.s->_socket, &nb, &ce, &nd, &ka, &ra), "outcome", "the socket has no descriptor");
				SIM_CHECK((r1 == 0 && r2 == 0 && r3 == 0) || net::fail_misc, "outcome", "setting options reports %d %d %d without a reason", r1, r2, r3);
				SIM_CHECK(r1 != 0 || nb, "options", "the socket blocks");
				SIM_CHECK(r2 != 0 || ce, "options", "the socket is inherited by programs that are started");
				SIM_CHECK(net::fail_misc || (nd == on && ka == !on && ra == on), "options", "an option differs from what was set");
			} break;
			default:
				memdelete(b.s);
				b = Obj();
				b.s = memnew(Socket);
				break;
		}
		SIM_CHECK(net::open_sockets() == count(), "handles", "%d sockets are open, expected %d", net::open_sockets(), count());
	}
	for (auto &b : o) memdelete(b.s);
	SIM_CHECK(net::open_sockets() == 0, "handles", "%d sockets are left", net::open_sockets());
}
} // namespace
SCENARIO(N01, addresses, 1) { n01_addresses(); }
SCENARIO(N01, stream, 3) { n01_stream(); }
SCENARIO(N01, pair, 1) { n01_pair(); }
SCENARIO(N01, outcomes, 2) { n01_outcomes(); }
