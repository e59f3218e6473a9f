// The other side of real connections over the loopback network, driven by the check itself
#ifndef VERIF_LOOPBACK
#define VERIF_LOOPBACK
#include "harness.hpp"
#include <sys/socket.h>
#include <sys/types.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include <poll.h>
#include <errno.h>
#include <time.h>
#include <thread>

inline double nowSeconds() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return double(t.tv_sec) + double(t.tv_nsec) / 1e9; }

struct Listener { // One per process
	int fd = -1, port = 0;
	Listener() {
		fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
		sockaddr_in a{};
		a.sin_family = AF_INET;
		a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
		socklen_t n = sizeof(a);
		if (fd < 0 || bind(fd, reinterpret_cast<sockaddr*>(&a), sizeof(a)) || listen(fd, 64) || getsockname(fd, reinterpret_cast<sockaddr*>(&a), &n)) {
			fprintf(stderr, "cannot listen on the loopback network\n");
			_exit(3);
		}
		port = ntohs(a.sin_port);
	}
	static Listener& get() { static Listener l; return l; }
};

struct Peer {
	int fd = -1;
	Peer() = default;
	explicit Peer(int fd) : fd(fd) { setup(); }
	Peer(const Peer&) = delete;
	void setup() { int one = 1; setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof(one)); }
	void accept(double seconds = 20) {
		pollfd p{Listener::get().fd, POLLIN, 0};
		if (poll(&p, 1, int(seconds * 1000)) != 1 || (fd = ::accept4(Listener::get().fd, nullptr, nullptr, SOCK_CLOEXEC)) < 0) throw std::runtime_error("no connection came");
		setup();
	}
	bool connect(int port) {
		fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
		sockaddr_in a{};
		a.sin_family = AF_INET;
		a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
		a.sin_port = htons(uint16_t(port));
		if (::connect(fd, reinterpret_cast<sockaddr*>(&a), sizeof(a))) { close(); return false; }
		setup();
		return true;
	}
	bool send(std::string_view s) { // false if the other side is not there any more
		while (!s.empty()) {
			ssize_t n = ::send(fd, s.data(), s.size(), MSG_NOSIGNAL);
			if (n < 0 && errno == EINTR) continue;
			if (n <= 0) return false;
			s.remove_prefix(size_t(n));
		}
		return true;
	}
	// Appends what has come; waits for something at most the given time; false at the end of stream
	bool receive(std::string& to, double seconds, size_t most = 65536) {
		pollfd p{fd, POLLIN, 0};
		int r = poll(&p, 1, int(seconds * 1000));
		if (r <= 0) return true;
		static thread_local char b[65536];
		ssize_t n = ::recv(fd, b, std::min(most, sizeof(b)), 0);
		if (n <= 0) return false;
		to.append(b, size_t(n));
		return true;
	}
	// The same as of other kinds of connections
	void expect() {}
	int64_t unflushed() const { return 0; }
	void sendPartly(std::string_view s, Rng&) { send(s); }
	void flush() {}
	void notifyClose() {}
	void shutdownWrite() { ::shutdown(fd, SHUT_WR); }
	void reset() { // Closes it in a way that leaves nothing behind
		if (fd < 0) return;
		linger l{1, 0};
		setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof(l));
		::close(fd);
		fd = -1;
	}
	void close() { if (fd >= 0) ::close(fd); fd = -1; }
	~Peer() { reset(); }
};
#endif
